// Infill patterns.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Point2LL.h"
#include "geometry/Point3LL.h"
#include "geometry/Point3Matrix.h"
#include "geometry/PointMatrix.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "geometry/conversions/Point2D_Point2LL.h"
#include "infill/AbstractLinesInfill.h"
#include "infill/DensityProvider.h"
#include "infill/GyroidInfill.h"
#include "infill/ImageBasedDensityProvider.h"
#include "infill/NoZigZagConnectorProcessor.h"
#include "infill/RegularNGonalInfill.h"
#include "infill/SierpinskiFill.h"
#include "infill/SierpinskiFillProvider.h"
#include "infill/SubDivCube.h"
#include "infill/UniformDensityProvider.h"
#include "infill/ZigzagConnectorProcessor.h"
#include "settings/EnumSettings.h"
#include "settings/types/Angle.h"
#include "settings/types/LayerIndex.h"
#include "settings/types/Ratio.h"
#include "sliceDataStorage.h"
#include "utils/AABB.h"
#include "utils/AABB3D.h"
#include "utils/Coord_t.h"
#include "utils/OpenPolylineStitcher.h"
#include "utils/SVG.h"
#include "utils/linearAlg2D.h"
#include "utils/macros.h"
#include "utils/math.h"
#include "utils/polygonUtils.h"
#include <algorithm>
#include <algorithm> // swap
#include <assert.h>
#include <cassert>
#include <fmt/format.h>
#include <functional>
#include <functional> // function
#include <iterator> // next, prev
#include <list>
#include <numbers>
#include <optional>
#include <range/v3/view/enumerate.hpp>
#include <spdlog/spdlog.h>
#include <stb_image.h>
#include <vector>
#include "infill/AbstractLinesInfill.h"
#include "infill/DensityProvider.h"
#include "infill/GyroidInfill.h"
#include "infill/ImageBasedDensityProvider.h"
#include "infill/NoZigZagConnectorProcessor.h"
#include "infill/RegularNGonalInfill.h"
#include "infill/SierpinskiFill.h"
#include "infill/SierpinskiFillProvider.h"
#include "infill/SubDivCube.h"
#include "infill/UniformDensityProvider.h"
#include "infill/ZigzagConnectorProcessor.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::AbstractLinesInfill::generateInfill
void r1(const cura::AbstractLinesInfill& self, OpenLinesSet& result_polylines, Shape& result_polygons, const bool zig_zaggify, const coord_t line_distance, const Shape& in_outline, const coord_t z, const coord_t line_width, const AngleDegrees& rotation)
{
    Shape rotated_outline = in_outline;
    PointMatrix rotation_matrix(rotation);
    if (rotation != 0)
    {
        rotated_outline.applyMatrix(rotation_matrix);
    }
    const OpenLinesSet raw_lines = self.generateParallelLines(line_distance, AABB(rotated_outline), z, line_width);
    const OpenLinesSet fit_lines = self.fitLines(raw_lines, zig_zaggify, rotated_outline);
    OpenPolylineStitcher::stitch(fit_lines, result_polylines, result_polygons, line_width);
    if (rotation != 0)
    {
        rotation_matrix = rotation_matrix.inverse();
        result_polylines.applyMatrix(rotation_matrix);
        result_polygons.applyMatrix(rotation_matrix);
    }
}

//= cura::AbstractLinesInfill::fitLines
namespace n3
{
using SplitLines = cura::AbstractLinesInfill::SplitLines;
OpenLinesSet r3(const OpenLinesSet& raw_lines, const bool zig_zaggify, const Shape& in_outline)
{
    OpenLinesSet result;
    std::vector<SplitLines> split_lines;
    for (const auto& [column_id, raw_line] : raw_lines | ranges::views::enumerate)
    {
        if (! raw_line.isValid())
        {
            continue;
        }
        constexpr bool restitch = false;
        constexpr coord_t max_stitching_distance = 0;
        constexpr bool split_into_segments = false;
        const OpenLinesSet intersected_lines = in_outline.intersection(OpenLinesSet(raw_line), restitch, max_stitching_distance, split_into_segments);
        for (const OpenPolyline& intersected_line : intersected_lines)
        {
            result.push_back(intersected_line);
            if (zig_zaggify)
            {
                split_lines.emplace_back(SplitLines{ std::array{ intersected_line.front(), intersected_line.back() }, column_id });
            }
        }
    }
    if (! split_lines.empty())
    {
        result.push_back(cura::AbstractLinesInfill::zigZaggify(split_lines, in_outline));
    }
    return result;
}
} // namespace n3

//= cura::GyroidInfill::generateParallelLines
OpenLinesSet r4(const cura::GyroidInfill& self, const coord_t line_distance, const AABB& bounding_box, const coord_t z, const coord_t line_width)
{
    int pitch = line_distance * 2.41; 
    int num_steps = 4;
    int step = pitch / num_steps;
    while (step > 500 && num_steps < 16)
    {
        num_steps *= 2;
        step = pitch / num_steps;
    }
    pitch = step * num_steps; 
    const double z_rads = 2 * std::numbers::pi * z / pitch;
    const double cos_z = std::cos(z_rads);
    const double sin_z = std::sin(z_rads);
    std::vector<coord_t> odd_line_coords;
    std::vector<coord_t> even_line_coords;
    OpenLinesSet result;
    if (std::abs(sin_z) <= std::abs(cos_z))
    {
        const double phase_offset = ((cos_z < 0) ? std::numbers::pi : 0) + std::numbers::pi;
        for (coord_t y = 0; y < pitch; y += step)
        {
            const double y_rads = 2 * std::numbers::pi * y / pitch;
            const double a = cos_z;
            const double b = std::sin(y_rads + phase_offset);
            const double odd_c = sin_z * std::cos(y_rads + phase_offset);
            const double even_c = sin_z * std::cos(y_rads + phase_offset + std::numbers::pi);
            const double h = std::sqrt(a * a + b * b);
            const double odd_x_rads = ((h != 0) ? std::asin(odd_c / h) + std::asin(b / h) : 0) - std::numbers::pi / 2;
            const double even_x_rads = ((h != 0) ? std::asin(even_c / h) + std::asin(b / h) : 0) - std::numbers::pi / 2;
            odd_line_coords.push_back(odd_x_rads / std::numbers::pi * pitch);
            even_line_coords.push_back(even_x_rads / std::numbers::pi * pitch);
        }
        const unsigned num_coords = odd_line_coords.size();
        unsigned num_columns = 0;
        for (coord_t x = (std::floor(bounding_box.min_.X / pitch) - 2.25) * pitch; x <= bounding_box.max_.X + pitch / 2; x += pitch / 2)
        {
            OpenPolyline line;
            for (coord_t y = (std::floor(bounding_box.min_.Y / pitch) - 1) * pitch; y <= bounding_box.max_.Y + pitch; y += pitch)
            {
                for (unsigned i = 0; i < num_coords; ++i)
                {
                    line.push_back(Point2LL(x + ((num_columns & 1) ? odd_line_coords[i] : even_line_coords[i]) / 2 + pitch, y + (coord_t)(i * step)));
                }
            }
            result.push_back(line);
            ++num_columns;
        }
    }
    else
    {
        const double phase_offset = (sin_z < 0) ? std::numbers::pi : 0;
        for (coord_t x = 0; x < pitch; x += step)
        {
            const double x_rads = 2 * std::numbers::pi * x / pitch;
            const double a = sin_z;
            const double b = std::cos(x_rads + phase_offset);
            const double odd_c = cos_z * std::sin(x_rads + phase_offset + std::numbers::pi);
            const double even_c = cos_z * std::sin(x_rads + phase_offset);
            const double h = std::sqrt(a * a + b * b);
            const double odd_y_rads = ((h != 0) ? std::asin(odd_c / h) + std::asin(b / h) : 0) + std::numbers::pi / 2;
            const double even_y_rads = ((h != 0) ? std::asin(even_c / h) + std::asin(b / h) : 0) + std::numbers::pi / 2;
            odd_line_coords.push_back(odd_y_rads / std::numbers::pi * pitch);
            even_line_coords.push_back(even_y_rads / std::numbers::pi * pitch);
        }
        const unsigned num_coords = odd_line_coords.size();
        unsigned num_rows = 0;
        for (coord_t y = (std::floor(bounding_box.min_.Y / pitch) - 1) * pitch; y <= bounding_box.max_.Y + pitch / 2; y += pitch / 2)
        {
            OpenPolyline line;
            for (coord_t x = (std::floor(bounding_box.min_.X / pitch) - 1) * pitch; x <= bounding_box.max_.X + pitch; x += pitch)
            {
                for (unsigned i = 0; i < num_coords; ++i)
                {
                    line.push_back(Point2LL(x + (coord_t)(i * step), y + ((num_rows & 1) ? odd_line_coords[i] : even_line_coords[i]) / 2));
                }
            }
            result.push_back(line);
            ++num_rows;
        }
    }
    return result;
}

//= cura::ImageBasedDensityProvider::ImageBasedDensityProvider
void r5(cura::ImageBasedDensityProvider& self, const std::string filename, const AABB model_aabb)
{
    int desired_channel_count = 0; 
    int img_x, img_y, img_z; 
    self.image = stbi_load(filename.c_str(), &img_x, &img_y, &img_z, desired_channel_count);
    self.image_size = Point3LL(img_x, img_y, img_z);
    if (! self.image)
    {
        const char* reason = "[unknown reason]";
        if (stbi_failure_reason())
        {
            reason = stbi_failure_reason();
        }
        std::exit(-1);
    }
    { 
        Point2LL middle = model_aabb.getMiddle();
        Point2LL model_aabb_size = model_aabb.max_ - model_aabb.min_;
        Point2LL image_size2 = Point2LL(self.image_size.x_, self.image_size.y_);
        double aabb_aspect_ratio = double(model_aabb_size.X) / double(model_aabb_size.Y);
        double image_aspect_ratio = double(self.image_size.x_) / double(self.image_size.y_);
        Point2LL aabb_size;
        if (image_aspect_ratio < aabb_aspect_ratio)
        {
            aabb_size = image_size2 * model_aabb_size.X / self.image_size.x_;
        }
        else
        {
            aabb_size = image_size2 * model_aabb_size.Y / self.image_size.y_;
        }
        self.print_aabb = AABB(middle - aabb_size / 2, middle + aabb_size / 2);
    }
}

//= cura::ImageBasedDensityProvider::operator()
double r6(const cura::ImageBasedDensityProvider& self, const AABB3D& query_cube)
{
    AABB query_box(Point2LL(query_cube.min_.x_, query_cube.min_.y_), Point2LL(query_cube.max_.x_, query_cube.max_.y_));
    Point2LL img_min = (query_box.min_ - self.print_aabb.min_ - Point2LL(1, 1)) * self.image_size.x_ / (self.print_aabb.max_.X - self.print_aabb.min_.X);
    Point2LL img_max = (query_box.max_ - self.print_aabb.min_ + Point2LL(1, 1)) * self.image_size.y_ / (self.print_aabb.max_.Y - self.print_aabb.min_.Y);
    long total_lightness = 0;
    int value_count = 0;
    for (int x = std::max((coord_t)0, img_min.X); x <= std::min((coord_t)self.image_size.x_ - 1, img_max.X); x++)
    {
        for (int y = std::max((coord_t)0, img_min.Y); y <= std::min((coord_t)self.image_size.y_ - 1, img_max.Y); y++)
        {
            for (int z = 0; z < self.image_size.z_; z++)
            {
                total_lightness += self.image[((self.image_size.y_ - 1 - y) * self.image_size.x_ + x) * self.image_size.z_ + z];
                value_count++;
            }
        }
    }
    if (value_count == 0)
    { 
        Point2LL closest_pixel = (img_min + img_max) / 2;
        closest_pixel.X = std::max((coord_t)0, std::min((coord_t)self.image_size.x_ - 1, (coord_t)closest_pixel.X));
        closest_pixel.Y = std::max((coord_t)0, std::min((coord_t)self.image_size.y_ - 1, (coord_t)closest_pixel.Y));
        for (int z = 0; z < self.image_size.z_; z++)
        {
            total_lightness += self.image[((self.image_size.y_ - 1 - closest_pixel.Y) * self.image_size.x_ + closest_pixel.X) * self.image_size.z_ + z];
            value_count++;
        }
    }
    return 1.0 - ((double)total_lightness) / value_count / 255.0;
}

//= cura::NoZigZagConnectorProcessor::registerVertex
void r7(cura::NoZigZagConnectorProcessor& self, const Point2LL&)
{
}

//= cura::NoZigZagConnectorProcessor::registerScanlineSegmentIntersection
void r8(cura::NoZigZagConnectorProcessor& self, const Point2LL&, int, coord_t)
{
}

//= cura::NoZigZagConnectorProcessor::registerPolyFinished
void r9(cura::NoZigZagConnectorProcessor& self)
{
}

//= cura::RegularNGonalInfill::RegularNGonalInfill
namespace n10
{
using RegularNGonType = cura::RegularNGonalInfill::RegularNGonType;
void r10(cura::RegularNGonalInfill& self, RegularNGonType type)
{
        member(self.type_) = type;
}
} // namespace n10

//= cura::RegularNGonalInfill::generateParallelLines
namespace n11
{
using RegularNGonType = cura::RegularNGonalInfill::RegularNGonType;
using SegmentsPattern = cura::RegularNGonalInfill::SegmentsPattern;
OpenLinesSet r11(const cura::RegularNGonalInfill& self, const coord_t line_distance, const AABB& bounding_box, const coord_t z, const coord_t line_width)
{
    std::array<SegmentsPattern, 2> patterns;
    coord_t delta_y = 0;
    coord_t pattern_width = 0;
    coord_t pattern_height = 0;
    const double circumradius = line_distance / (std::cos(std::numbers::pi / 6));
    switch (self.type_)
    {
    case RegularNGonType::Octagon:
    {
        const double segment_length = (std::cos(std::numbers::pi / 8) * circumradius) / 2.0;
        const double segment_right_side = segment_length / std::sqrt(2.0);
        patterns = self.generatePatterns(segment_length, segment_right_side, segment_right_side, std::llrint(segment_length / 2));
        delta_y = -(segment_length * 1.5 + segment_right_side);
        pattern_width = 2 * segment_length + 2 * segment_right_side;
        pattern_height = pattern_width;
        break;
    }
    case RegularNGonType::Hexagon:
    {
        const double segment_right_full_x = circumradius * std::cos(std::numbers::pi / 6);
        const double segment_right_full_y = circumradius * std::sin(std::numbers::pi / 6);
        const double segment_right_x = segment_right_full_x - line_width;
        const double segment_right_y = segment_right_x * std::tan(std::numbers::pi / 6);
        const double segment_up_length = circumradius + (segment_right_full_y - segment_right_y);
        patterns = self.generatePatterns(segment_up_length, segment_right_x, segment_right_y, line_width / 2);
        delta_y = -(segment_up_length * 1.5 + segment_right_y);
        pattern_width = line_distance * 2;
        pattern_height = segment_up_length * 2 + segment_right_y * 2;
        break;
    }
    }
    return self.generateRegularNGonalLines(bounding_box, patterns, delta_y, pattern_width, pattern_height);
}
} // namespace n11

//= cura::RegularNGonalInfill::generateRegularNGonalLines
namespace n12
{
using SegmentsPattern = cura::RegularNGonalInfill::SegmentsPattern;
OpenLinesSet r12(const AABB& bounding_box, const std::array<SegmentsPattern, 2>& patterns, const coord_t delta_y, const coord_t pattern_width, const coord_t pattern_height)
{
    if (pattern_width <= 0 || pattern_height <= 0)
    {
        return {};
    }
    const int start_col = bounding_box.min_.X / pattern_width - 1;
    const int end_col = (bounding_box.max_.X / pattern_width) + 1;
    const int start_row = bounding_box.min_.Y / pattern_height - 1;
    const int end_row = (bounding_box.max_.Y / pattern_height) + 1;
    OpenLinesSet raw_lines;
    for (int col = start_col; col <= end_col; ++col)
    {
        for (const SegmentsPattern& pattern : patterns)
        {
            OpenPolyline raw_line;
            Point2LL current_position(pattern.delta_x + col * pattern_width, delta_y + start_row * pattern_height);
            raw_line.push_back(current_position);
            for (int row = start_row; row <= end_row; ++row)
            {
                for (const Point2LL& segment : pattern.segments)
                {
                    current_position += segment;
                    raw_line.push_back(current_position);
                }
            }
            raw_lines.push_back(raw_line);
        }
    }
    return raw_lines;
}
} // namespace n12

//= cura::SierpinskiFill::createTree
namespace n15
{
using SierpinskiTriangle = cura::SierpinskiFill::SierpinskiTriangle;
void r15(cura::SierpinskiFill& self)
{
    Point2LL lt = Point2LL(self.aabb_.min_.X, self.aabb_.max_.Y);
    Point2LL rb = Point2LL(self.aabb_.max_.X, self.aabb_.min_.Y);
    bool root_straight_corner_is_left = false;
    int root_depth = 1;
    self.root_.children.emplace_back(rb, self.aabb_.min_, self.aabb_.max_, SierpinskiTriangle::SierpinskiDirection::AC_TO_AB, root_straight_corner_is_left, root_depth);
    self.root_.children.emplace_back(lt, self.aabb_.max_, self.aabb_.min_, SierpinskiTriangle::SierpinskiDirection::AC_TO_AB, root_straight_corner_is_left, root_depth);
    for (SierpinskiTriangle& triangle : self.root_.children)
    {
        self.createTree(triangle);
    }
    self.createTreeStatistics(self.root_);
    self.createTreeRequestedLengths(self.root_);
}
} // namespace n15

//= cura::SierpinskiFill::createTree
namespace n16
{
using SierpinskiTriangle = cura::SierpinskiFill::SierpinskiTriangle;
void r16(cura::SierpinskiFill& self, SierpinskiTriangle& sub_root)
{
    if (sub_root.depth_ < self.max_depth_) 
    {
        SierpinskiTriangle& t = sub_root;
        Point2LL middle = (t.a_ + t.b_) / 2;
        SierpinskiTriangle::SierpinskiDirection first_dir, second_dir;
        switch (t.dir_)
        {
        default:
        case SierpinskiTriangle::SierpinskiDirection::AB_TO_BC:
            first_dir = SierpinskiTriangle::SierpinskiDirection::AC_TO_BC;
            second_dir = SierpinskiTriangle::SierpinskiDirection::AC_TO_AB;
            break;
        case SierpinskiTriangle::SierpinskiDirection::AC_TO_AB:
            first_dir = SierpinskiTriangle::SierpinskiDirection::AB_TO_BC;
            second_dir = SierpinskiTriangle::SierpinskiDirection::AC_TO_BC;
            break;
        case SierpinskiTriangle::SierpinskiDirection::AC_TO_BC:
            first_dir = SierpinskiTriangle::SierpinskiDirection::AB_TO_BC;
            second_dir = SierpinskiTriangle::SierpinskiDirection::AC_TO_AB;
            break;
        }
        sub_root.children.emplace_back(middle, t.a_, t.straight_corner_, first_dir, ! t.straight_corner_is_left_, t.depth_ + 1);
        sub_root.children.emplace_back(middle, t.straight_corner_, t.b_, second_dir, ! t.straight_corner_is_left_, t.depth_ + 1);
        for (SierpinskiTriangle& child : t.children)
        {
            self.createTree(child);
        }
    }
}
} // namespace n16

//= cura::SierpinskiFill::createTreeStatistics
namespace n17
{
using SierpinskiTriangle = cura::SierpinskiFill::SierpinskiTriangle;
void r17(cura::SierpinskiFill& self, SierpinskiTriangle& triangle)
{
    Point2LL ac = triangle.straight_corner_ - triangle.a_;
    double area = 0.5 * INT2MM2(vSize2(ac));
    double short_length = .5 * vSizeMM(ac);
    double long_length = .5 * vSizeMM(triangle.b_ - triangle.a_);
    triangle.area_ = area;
    triangle.realized_length_ = (triangle.dir_ == SierpinskiTriangle::SierpinskiDirection::AC_TO_BC) ? long_length : short_length;
    for (SierpinskiTriangle& child : triangle.children)
    {
        self.createTreeStatistics(child);
    }
}
} // namespace n17

//= cura::SierpinskiFill::createTreeRequestedLengths
namespace n18
{
using SierpinskiTriangle = cura::SierpinskiFill::SierpinskiTriangle;
void r18(cura::SierpinskiFill& self, SierpinskiTriangle& triangle)
{
    if (triangle.children.empty())
    { 
        AABB triangle_aabb;
        triangle_aabb.include(triangle.a_);
        triangle_aabb.include(triangle.b_);
        triangle_aabb.include(triangle.straight_corner_);
        AABB3D triangle_aabb3d(Point3LL(triangle_aabb.min_.X, triangle_aabb.min_.Y, 0), Point3LL(triangle_aabb.max_.X, triangle_aabb.max_.Y, 1));
        double density = self.density_provider_(triangle_aabb3d); 
        triangle.requested_length_ = density * triangle.area_ / INT2MM(self.line_width_);
    }
    else
    { 
        for (SierpinskiTriangle& child : triangle.children)
        {
            self.createTreeRequestedLengths(child);
            triangle.requested_length_ += child.requested_length_;
            triangle.total_child_realized_length_ += child.realized_length_;
        }
    }
}
} // namespace n18

//= cura::SierpinskiFill::createLowerBoundSequence
namespace n19
{
static constexpr bool deep_debug_checking = false;
void r19(cura::SierpinskiFill& self)
{
    self.sequence_.emplace_front(&self.root_);
    if (deep_debug_checking)
        self.debugCheck();
    for (int iteration = 0; iteration < 999; iteration++)
    {
        bool change = false;
        change |= self.subdivideAll();
        if (deep_debug_checking)
            self.debugCheck();
        if (self.constraint_error_diffusion_)
        {
            change |= self.bubbleUpConstraintErrors();
            if (deep_debug_checking)
                self.debugCheck();
        }
        if (! change)
        {
            break;
        }
    }
}
} // namespace n19

//= cura::SierpinskiFill::getDepthOrdered
namespace n20
{
using SierpinskiTriangle = cura::SierpinskiFill::SierpinskiTriangle;
std::vector<std::vector<std::list<SierpinskiFill::SierpinskiTriangle*>::iterator>> r20(cura::SierpinskiFill& self)
{
    std::vector<std::vector<std::list<SierpinskiTriangle*>::iterator>> depth_ordered(self.max_depth_ + 1);
    depth_ordered.resize(self.max_depth_);
    for (std::list<SierpinskiTriangle*>::iterator it = self.sequence_.begin(); it != self.sequence_.end(); ++it)
    {
        SierpinskiTriangle* node = *it;
        depth_ordered[node->depth_].emplace_back(it);
    }
    return depth_ordered;
}
} // namespace n20

//= cura::SierpinskiFill::settleErrors
namespace n26
{
using SierpinskiTriangle = cura::SierpinskiFill::SierpinskiTriangle;
void r26(cura::SierpinskiFill& self)
{
    std::vector<std::vector<std::list<SierpinskiTriangle*>::iterator>> depth_ordered = self.getDepthOrdered();
    for (std::vector<std::list<SierpinskiTriangle*>::iterator>& depth_nodes : depth_ordered)
    {
        for (std::list<SierpinskiTriangle*>::iterator it : depth_nodes)
        {
            self.redistributeLeftoverErrors(it, std::next(it), false);
        }
    }
}
} // namespace n26

//= cura::SierpinskiFill::diffuseError
namespace n27
{
using SierpinskiTriangle = cura::SierpinskiFill::SierpinskiTriangle;
void r27(cura::SierpinskiFill& self)
{
    int pair_constrained_nodes = 0;
    int constrained_nodes = 0;
    int unconstrained_nodes = 0;
    int subdivided_nodes = 0;
    double error = 0;
    for (std::list<SierpinskiTriangle*>::iterator it = self.sequence_.begin(); it != self.sequence_.end(); ++it)
    {
        SierpinskiTriangle& triangle = *(*it);
        double boundary = (triangle.realized_length_ + triangle.total_child_realized_length_) * 0.5;
        double nodal_value = ((self.use_errors_in_dithering_) ? triangle.getErroredValue() : triangle.requested_length_);
        double boundary_error = nodal_value - boundary + error;
        std::list<SierpinskiTriangle*>::iterator begin = it;
        std::list<SierpinskiTriangle*>::iterator end = std::next(it);
        if (triangle.dir_ == SierpinskiTriangle::SierpinskiDirection::AC_TO_AB && end != self.sequence_.end())
        {
            pair_constrained_nodes++;
            continue; 
        }
        if (triangle.dir_ == SierpinskiTriangle::SierpinskiDirection::AB_TO_BC && begin != self.sequence_.begin())
        {
            begin = std::prev(it);
        }
        bool is_constrained = false;
        for (auto nested_it = begin; nested_it != end; ++nested_it)
        {
            if (self.isConstrainedBackward(nested_it) || self.isConstrainedForward(nested_it))
            {
                is_constrained = true;
                constrained_nodes++;
                break;
            }
        }
        if (! is_constrained)
            unconstrained_nodes++;
        if (! is_constrained && boundary_error >= 0 && ! triangle.children.empty())
        {
            subdivided_nodes++;
            it = self.subdivide(begin, end, false);
            if (self.dithering_)
                error += nodal_value - triangle.total_child_realized_length_;
        }
        else
        {
            if (self.dithering_)
                error += nodal_value - triangle.realized_length_;
        }
    }
}
} // namespace n27

//= cura::SierpinskiFill::isConstrainedBackward
namespace n28
{
using SierpinskiTriangle = cura::SierpinskiFill::SierpinskiTriangle;
bool r28(cura::SierpinskiFill& self, std::list<SierpinskiTriangle*>::iterator it)
{
    SierpinskiTriangle* node = *it;
    SierpinskiTriangle* prev = *std::prev(it);
    if (it != self.sequence_.begin() && node->dir_ == SierpinskiTriangle::SierpinskiDirection::AB_TO_BC && prev->depth_ < node->depth_)
        return true;
    return false;
}
} // namespace n28

//= cura::SierpinskiFill::isConstrainedForward
namespace n29
{
using SierpinskiTriangle = cura::SierpinskiFill::SierpinskiTriangle;
bool r29(cura::SierpinskiFill& self, std::list<SierpinskiTriangle*>::iterator it)
{
    SierpinskiTriangle* node = *it;
    SierpinskiTriangle* next = *std::next(it);
    if (std::next(it) != self.sequence_.end() && node->dir_ == SierpinskiTriangle::SierpinskiDirection::AC_TO_AB && next->depth_ < node->depth_)
        return true;
    return false;
}
} // namespace n29

//= cura::SierpinskiFill::getSubdivisionError
namespace n30
{
using SierpinskiTriangle = cura::SierpinskiFill::SierpinskiTriangle;
double r30(cura::SierpinskiFill& self, std::list<SierpinskiTriangle*>::iterator begin, std::list<SierpinskiTriangle*>::iterator end)
{
    double ret = 0;
    for (auto it = begin; it != end; ++it)
    {
        SierpinskiTriangle* node = *it;
        ret += node->getSubdivisionError();
    }
    return ret;
}
} // namespace n30

//= cura::SierpinskiFill::debugOutput
namespace n31
{
using SierpinskiTriangle = cura::SierpinskiFill::SierpinskiTriangle;
void r31(cura::SierpinskiFill& self, SVG& svg)
{
    svg.write(self.aabb_.toPolygon(), { .surface = { SVG::Color::RED } });
    for (SierpinskiTriangle* node : self.sequence_)
    {
        SierpinskiTriangle& triangle = *node;
        svg.write(triangle.a_, triangle.b_, { .line = { SVG::Color::GRAY } });
        svg.write(triangle.a_, triangle.straight_corner_, { .line = { SVG::Color::GRAY } });
        svg.write(triangle.b_, triangle.straight_corner_, { .line = { SVG::Color::GRAY } });
    }
}
} // namespace n31

//= cura::SierpinskiFill::SierpinskiTriangle::getTotalError
double r34(cura::SierpinskiFill::SierpinskiTriangle& self)
{
    return self.error_left_ + self.error_right_;
}

//= cura::SierpinskiFill::SierpinskiTriangle::getErroredValue
double r35(cura::SierpinskiFill::SierpinskiTriangle& self)
{
    return self.requested_length_ + self.getTotalError();
}

//= cura::SierpinskiFill::SierpinskiTriangle::getSubdivisionError
double r36(cura::SierpinskiFill::SierpinskiTriangle& self)
{
    return self.getErroredValue() - self.total_child_realized_length_;
}

//= cura::SierpinskiFill::SierpinskiTriangle::getValueError
double r37(cura::SierpinskiFill::SierpinskiTriangle& self)
{
    return self.getErroredValue() - self.realized_length_;
}

//= cura::SierpinskiFill::generateCross
namespace n38
{
using SierpinskiTriangle = cura::SierpinskiFill::SierpinskiTriangle;
Polygon r38(const cura::SierpinskiFill& self)
{
    Polygon ret;
    for (SierpinskiTriangle* max_level_it : self.sequence_)
    {
        SierpinskiTriangle& triangle = *max_level_it;
        Point2LL edge_middle = triangle.a_ + triangle.b_ + triangle.straight_corner_;
        switch (triangle.dir_)
        {
        case SierpinskiTriangle::SierpinskiDirection::AB_TO_BC:
            edge_middle -= triangle.a_;
            break;
        case SierpinskiTriangle::SierpinskiDirection::AC_TO_AB:
            edge_middle -= triangle.straight_corner_;
            break;
        case SierpinskiTriangle::SierpinskiDirection::AC_TO_BC:
            edge_middle -= triangle.a_;
            break;
        }
        ret.push_back(edge_middle / 2);
    }
    double realized_length = INT2MM(ret.length());
    double requested_length = self.root_.requested_length_;
    double error = (realized_length - requested_length) / requested_length;
    return ret;
}
} // namespace n38

//= cura::SierpinskiFill::debugCheck
namespace n40
{
static constexpr double allowed_length_error = 0.01;
using SierpinskiTriangle = cura::SierpinskiFill::SierpinskiTriangle;
void r40(cura::SierpinskiFill& self, bool check_subdivision)
{
    if (std::abs(self.sequence_.front()->error_left_) > allowed_length_error)
    {
    }
    if (std::abs(self.sequence_.back()->error_right_) > allowed_length_error)
    {
    }
    for (auto it = self.sequence_.begin(); it != self.sequence_.end(); ++it)
    {
        if (std::next(it) == self.sequence_.end())
        {
            break;
        }
        SierpinskiTriangle* node = *it;
        SierpinskiTriangle* next = *std::next(it);
        if (std::abs(node->error_right_ + next->error_left_) > allowed_length_error)
        {
        }
        if (check_subdivision && node->getValueError() < -allowed_length_error)
        {
        }
    }
}
} // namespace n40

//= cura::SierpinskiFillProvider::generate
Polygon r43(const cura::SierpinskiFillProvider& self, EFillMethod pattern, coord_t z, coord_t line_width, coord_t pocket_size)
{
    if (self.fill_pattern_for_all_layers)
    {
        if (pattern == EFillMethod::CROSS_3D)
        {
            return self.fill_pattern_for_all_layers->generateCross(z, line_width / 2, pocket_size);
        }
        else
        {
            return self.fill_pattern_for_all_layers->generateCross();
        }
    }
    else
    {
        Polygon ret;
        std::exit(-1);
        return ret;
    }
}

//= cura::SierpinskiFillProvider::getFractalConfig
namespace n44
{
using FractalConfig = cura::SierpinskiFillProvider::FractalConfig;
SierpinskiFillProvider::FractalConfig r44(cura::SierpinskiFillProvider& self, const AABB3D aabb_3d, coord_t min_line_distance)
{
    AABB model_aabb = aabb_3d.flatten();
    Point2LL model_aabb_size = model_aabb.max_ - model_aabb.min_;
    coord_t max_side_length = std::max(model_aabb_size.X, model_aabb_size.Y);
    Point2LL model_middle = model_aabb.getMiddle();
    int depth = 0;
    coord_t aabb_size = min_line_distance;
    while (aabb_size < max_side_length)
    {
        aabb_size *= 2;
        depth += 2;
    }
    const double half_sqrt2 = 0.5 * std::numbers::sqrt2;
    if (depth > 0 && aabb_size * half_sqrt2 >= max_side_length)
    {
        aabb_size *= half_sqrt2;
        depth--;
    }
    Point2LL radius(aabb_size / 2, aabb_size / 2);
    AABB aabb(model_middle - radius, model_middle + radius);
    return FractalConfig{ depth, aabb };
}
} // namespace n44

//= cura::SubDivCube::precomputeOctree
namespace n45
{
#define ONE_OVER_SQRT_2 0.7071067811865475244008443621048490392848359376884740 // 1 / sqrt(2)
#define ONE_OVER_SQRT_3 0.577350269189625764509148780501957455647601751270126876018 // 1 / sqrt(3)
#define ONE_OVER_SQRT_6 0.408248290463863016366214012450981898660991246776111688072 // 1 / sqrt(6)
#define SQRT_TWO_THIRD 0.816496580927726032732428024901963797321982493552223376144 // sqrt(2 / 3)
using CubeProperties = cura::SubDivCube::CubeProperties;
void r45(SliceMeshStorage& mesh, const Point2LL& infill_origin)
{
    cura::SubDivCube::radius_addition_ = mesh.settings.get<coord_t>("sub_div_rad_add");
    const std::vector<AngleDegrees> infill_angles = mesh.settings.get<std::vector<AngleDegrees>>("infill_angles");
    const AngleDegrees infill_angle = (! infill_angles.empty()) ? infill_angles[0] : AngleDegrees(0);
    const coord_t furthest_dist_from_origin = std::sqrt(
        square(mesh.settings.get<coord_t>("machine_height")) + square(mesh.settings.get<coord_t>("machine_depth") / 2) + square(mesh.settings.get<coord_t>("machine_width") / 2));
    const coord_t max_side_length = furthest_dist_from_origin * 2;
    size_t curr_recursion_depth = 0;
    const coord_t infill_line_distance = mesh.settings.get<coord_t>("infill_line_distance");
    if (infill_line_distance > 0)
    {
        for (coord_t curr_side_length = infill_line_distance * 2; curr_side_length < max_side_length * 2; curr_side_length *= 2)
        {
            cura::SubDivCube::cube_properties_per_recursion_step_.emplace_back();
            CubeProperties& cube_properties_here = cura::SubDivCube::cube_properties_per_recursion_step_.back();
            cube_properties_here.side_length = curr_side_length;
            cube_properties_here.height = sqrt(3) * curr_side_length;
            cube_properties_here.square_height = sqrt(2) * curr_side_length;
            cube_properties_here.max_draw_z_diff = ONE_OVER_SQRT_3 * curr_side_length;
            cube_properties_here.max_line_offset = ONE_OVER_SQRT_6 * curr_side_length;
            curr_recursion_depth++;
        }
    }
    Point3LL center(infill_origin.X, infill_origin.Y, 0);
    Point3Matrix tilt; 
    tilt.matrix[0] = -ONE_OVER_SQRT_2;
    tilt.matrix[1] = ONE_OVER_SQRT_2;
    tilt.matrix[2] = 0;
    tilt.matrix[3] = -ONE_OVER_SQRT_6;
    tilt.matrix[4] = -ONE_OVER_SQRT_6;
    tilt.matrix[5] = SQRT_TWO_THIRD;
    tilt.matrix[6] = ONE_OVER_SQRT_3;
    tilt.matrix[7] = ONE_OVER_SQRT_3;
    tilt.matrix[8] = ONE_OVER_SQRT_3;
    cura::SubDivCube::infill_rotation_matrix_ = PointMatrix(infill_angle);
    Point3Matrix infill_angle_mat(cura::SubDivCube::infill_rotation_matrix_);
    cura::SubDivCube::rotation_matrix_ = infill_angle_mat.compose(tilt);
    mesh.base_subdiv_cube = std::make_shared<SubDivCube>(mesh, center, curr_recursion_depth - 1);
}
} // namespace n45

//= cura::SubDivCube::generateSubdivisionLines
void r46(cura::SubDivCube& self, const coord_t z, OpenLinesSet& result)
{
    if (self.cube_properties_per_recursion_step_.empty()) 
    {
        return;
    }
    OpenLinesSet directional_line_groups[3];
    self.generateSubdivisionLines(z, directional_line_groups);
    for (int dir_idx = 0; dir_idx < 3; dir_idx++)
    {
        OpenLinesSet& line_group = directional_line_groups[dir_idx];
        for (unsigned int line_idx = 0; line_idx < line_group.size(); line_idx++)
        {
            result.addSegment(line_group[line_idx][0], line_group[line_idx][1]);
        }
    }
}

//= cura::SubDivCube::generateSubdivisionLines
namespace n47
{
#define ONE_OVER_SQRT_2 0.7071067811865475244008443621048490392848359376884740 // 1 / sqrt(2)
using CubeProperties = cura::SubDivCube::CubeProperties;
void r47(cura::SubDivCube& self, const coord_t z, OpenLinesSet (&directional_line_groups)[3])
{
    CubeProperties cube_properties = self.cube_properties_per_recursion_step_[self.depth_];
    const coord_t z_diff = std::abs(z - self.center_.z_); 
    if (z_diff > cube_properties.height / 2) 
    {
        return;
    }
    if (z_diff < cube_properties.max_draw_z_diff) 
    {
        Point2LL relative_a, relative_b; 
        Point2LL a, b; 
        relative_a.X = (cube_properties.square_height / 2) * (cube_properties.max_draw_z_diff - z_diff) / cube_properties.max_draw_z_diff;
        relative_b.X = -relative_a.X;
        relative_a.Y = cube_properties.max_line_offset - ((z - (self.center_.z_ - cube_properties.max_draw_z_diff)) * ONE_OVER_SQRT_2);
        relative_b.Y = relative_a.Y;
        self.rotatePointInitial(relative_a);
        self.rotatePointInitial(relative_b);
        for (int dir_idx = 0; dir_idx < 3; dir_idx++) 
        {
            a.X = self.center_.x_ + relative_a.X;
            a.Y = self.center_.y_ + relative_a.Y;
            b.X = self.center_.x_ + relative_b.X;
            b.Y = self.center_.y_ + relative_b.Y;
            self.addLineAndCombine(directional_line_groups[dir_idx], a, b);
            if (dir_idx < 2)
            {
                self.rotatePoint120(relative_a);
                self.rotatePoint120(relative_b);
            }
        }
    }
    for (int idx = 0; idx < 8; idx++) 
    {
        if (self.children_[idx] != nullptr)
        {
            self.children_[idx]->generateSubdivisionLines(z, directional_line_groups);
        }
    }
}
} // namespace n47

//= cura::SubDivCube::isValidSubdivision
bool r49(SliceMeshStorage& mesh, Point3LL& center, coord_t radius)
{
    coord_t distance2 = 0;
    coord_t sphere_slice_radius2; 
    bool inside_somewhere = false;
    bool outside_somewhere = false;
    int inside;
    Ratio part_dist; 
    const coord_t layer_height = mesh.settings.get<coord_t>("layer_height");
    int bottom_layer = (center.z_ - radius) / layer_height;
    int top_layer = (center.z_ + radius) / layer_height;
    for (int test_layer = bottom_layer; test_layer <= top_layer; test_layer += 3) 
    {
        part_dist = Ratio{ static_cast<Ratio::value_type>(test_layer * layer_height - center.z_) } / radius;
        sphere_slice_radius2 = radius * radius * (1.0 - (part_dist * part_dist));
        Point2LL loc(center.x_, center.y_);
        inside = cura::SubDivCube::distanceFromPointToMesh(mesh, test_layer, loc, &distance2);
        if (inside == 1)
        {
            inside_somewhere = true;
        }
        else
        {
            outside_somewhere = true;
        }
        if (outside_somewhere && inside_somewhere)
        {
            return true;
        }
        if ((inside != 2) && distance2 < sphere_slice_radius2)
        {
            return true;
        }
    }
    return false;
}

//= cura::SubDivCube::distanceFromPointToMesh
coord_t r50(SliceMeshStorage& mesh, const LayerIndex layer_nr, Point2LL& location, coord_t* distance2)
{
    if (layer_nr < 0 || (unsigned int)layer_nr >= mesh.layers.size()) 
    {
        return 2;
        *distance2 = 0;
    }
    Shape collide;
    for (const SliceLayerPart& part : mesh.layers[layer_nr].parts)
    {
        collide.push_back(part.infill_area);
    }
    Point2LL centerpoint = location;
    bool inside = collide.inside(centerpoint);
    ClosestPointPolygon border_point = PolygonUtils::moveInside2(collide, centerpoint);
    Point2LL diff = border_point.location_ - location;
    *distance2 = vSize2(diff);
    if (inside)
    {
        return 1;
    }
    return 0;
}

//= cura::SubDivCube::rotatePointInitial
void r51(Point2LL& target)
{
    target = cura::SubDivCube::infill_rotation_matrix_.apply(target);
}

//= cura::SubDivCube::rotatePoint120
namespace n52
{
#define sqrt_three_fourths 0.86602540378443864676372317
void r52(Point2LL& target)
{
#define sqrt_three_fourths 0.86602540378443864676372317
    const coord_t x = -0.5 * target.X - sqrt_three_fourths * target.Y;
    target.Y = -0.5 * target.Y + sqrt_three_fourths * target.X;
    target.X = x;
}
} // namespace n52

//= cura::SubDivCube::addLineAndCombine
void r53(cura::SubDivCube& self, OpenLinesSet& group, Point2LL from, Point2LL to)
{
    int epsilon = 10; 
    for (unsigned int idx = 0; idx < group.size(); idx++)
    {
        if (std::abs(from.X - group[idx][1].X) < epsilon && std::abs(from.Y - group[idx][1].Y) < epsilon)
        {
            from = group[idx][0];
            group.removeAt(idx);
            idx--;
            continue;
        }
        if (std::abs(to.X - group[idx][0].X) < epsilon && std::abs(to.Y - group[idx][0].Y) < epsilon)
        {
            to = group[idx][1];
            group.removeAt(idx);
            idx--;
            continue;
        }
    }
    group.addSegment(from, to);
}

//= cura::ZigzagConnectorProcessor::registerVertex
void r54(cura::ZigzagConnectorProcessor& self, const Point2LL& vertex)
{
    if (self.is_first_connector_)
    {
        self.first_connector_.push_back(vertex);
    }
    else
    { 
        self.current_connector_.push_back(vertex);
    }
}

//= cura::ZigzagConnectorProcessor::shouldAddCurrentConnector
bool r55(const cura::ZigzagConnectorProcessor& self, int start_scanline_idx, int end_scanline_idx)
{
    int direction = end_scanline_idx - start_scanline_idx;
    const bool is_this_endpiece = start_scanline_idx == end_scanline_idx;
    const bool is_this_connection_even = start_scanline_idx % 2 == 0;
    bool should_skip_this_connection = false;
    if (self.skip_some_zags_ && self.zag_skip_count_ > 0)
    {
        if (direction > 0)
        {
            should_skip_this_connection = start_scanline_idx % self.zag_skip_count_ == 0;
        }
        else
        {
            should_skip_this_connection = (start_scanline_idx - 1) % self.zag_skip_count_ == 0;
        }
    }
    const bool should_add = (is_this_connection_even && ! is_this_endpiece && ! should_skip_this_connection) 
                         || (self.use_endpieces_ && is_this_endpiece); 
    return should_add;
}

//= cura::ZigzagConnectorProcessor::handleConnectorTooCloseToSegment
bool r56(cura::ZigzagConnectorProcessor& self, const coord_t scanline_x, const coord_t min_distance_to_scanline)
{
    if (self.current_connector_.empty())
    {
        return false;
    }
    return std::find_if(
               self.current_connector_.begin(),
               self.current_connector_.end(),
               [scanline_x, min_distance_to_scanline](const Point2LL& point)
               {
                   return std::abs(point.X - scanline_x) >= min_distance_to_scanline;
               })
        == self.current_connector_.end();
}

//= cura::ZigzagConnectorProcessor::registerScanlineSegmentIntersection
void r57(cura::ZigzagConnectorProcessor& self, const Point2LL& intersection, int scanline_index, coord_t min_distance_to_scanline)
{
    if (self.is_first_connector_)
    {
        self.first_connector_.push_back(intersection);
        self.first_connector_end_scanline_index_ = scanline_index;
        self.is_first_connector_ = false;
    }
    else
    {
        if (self.shouldAddCurrentConnector(self.last_connector_index_, scanline_index) && ! self.handleConnectorTooCloseToSegment(intersection.X, min_distance_to_scanline))
        {
            const bool is_this_endpiece = scanline_index == self.last_connector_index_;
            self.current_connector_.push_back(intersection);
            self.addZagConnector(self.current_connector_, is_this_endpiece);
        }
    }
    self.current_connector_.clear(); 
    self.current_connector_.push_back(intersection);
    self.last_connector_index_ = scanline_index;
}

//= cura::ZigzagConnectorProcessor::registerPolyFinished
void r58(cura::ZigzagConnectorProcessor& self)
{
    int scanline_start_index = self.last_connector_index_;
    int scanline_end_index = self.first_connector_end_scanline_index_;
    const bool is_endpiece = self.is_first_connector_ || (! self.is_first_connector_ && scanline_start_index == scanline_end_index);
    if ((is_endpiece && self.use_endpieces_) || (! is_endpiece && self.shouldAddCurrentConnector(scanline_start_index, scanline_end_index)))
    {
        for (const Point2LL& point : self.first_connector_)
        {
            self.current_connector_.push_back(point);
        }
        self.first_connector_.clear();
        self.addZagConnector(self.current_connector_, is_endpiece);
    }
    self.reset();
}

//= cura::ZigzagConnectorProcessor::addZagConnector
void r59(cura::ZigzagConnectorProcessor& self, std::vector<Point2LL>& points, bool is_endpiece)
{
    if (points.size() < 2)
    {
        return;
    }
    OpenPolyline polyline(points);
    if (is_endpiece && ! self.connected_endpieces_)
    {
        polyline.pop_back();
    }
    self.addPolyline(polyline);
}

//= cura::ZigzagConnectorProcessor::reset
void r60(cura::ZigzagConnectorProcessor& self)
{
    self.is_first_connector_ = true;
    self.first_connector_end_scanline_index_ = 0;
    self.last_connector_index_ = 0;
    self.first_connector_.clear();
    self.current_connector_.clear();
}

//= cura::ZigzagConnectorProcessor::addPolyline
void r61(cura::ZigzagConnectorProcessor& self, const OpenPolyline& polyline)
{
    self.result_.emplace_back(polyline);
    for (Point2LL& p : self.result_.back())
    {
        p = self.rotation_matrix_.unapply(p);
    }
}

//= cura::SierpinskiFill::SierpinskiTriangle::SierpinskiTriangle
namespace n63
{
using SierpinskiDirection = cura::SierpinskiFill::SierpinskiTriangle::SierpinskiDirection;
void r63(cura::SierpinskiFill::SierpinskiTriangle& self, Point2LL straight_corner, Point2LL a, Point2LL b, SierpinskiDirection dir, bool straight_corner_is_left, int depth)
{
member(self.straight_corner_) = straight_corner;
member(self.a_) = a;
member(self.b_) = b;
member(self.dir_) = dir;
member(self.straight_corner_is_left_) = straight_corner_is_left;
member(self.depth_) = depth;
member(self.requested_length_) = 0;
member(self.total_child_realized_length_) = 0;
member(self.error_left_) = 0;
member(self.error_right_) = 0;
}
} // namespace n63

//= cura::SierpinskiFill::SierpinskiTriangle::SierpinskiTriangle
namespace n64
{
using SierpinskiDirection = cura::SierpinskiFill::SierpinskiTriangle::SierpinskiDirection;
void r64(cura::SierpinskiFill::SierpinskiTriangle& self)
{
member(self.straight_corner_) = no_point;
member(self.a_) = no_point;
member(self.b_) = no_point;
member(self.dir_) = SierpinskiDirection::AB_TO_BC;
member(self.straight_corner_is_left_) = false;
member(self.depth_) = 0;
member(self.requested_length_) = 0;
member(self.total_child_realized_length_) = 0;
member(self.error_left_) = 0;
member(self.error_right_) = 0;
}
} // namespace n64

//= cura::UniformDensityProvider::UniformDensityProvider
void r65(cura::UniformDensityProvider& self, double density)
{
    member(self.density_) = density;
}

//= cura::UniformDensityProvider::operator()
double r66(const cura::UniformDensityProvider& self, const AABB3D&)
{
    return self.density_;
}

//END
}  // namespace ref
