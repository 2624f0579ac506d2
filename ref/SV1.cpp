// Output files.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "arachne/SkeletalTrapezoidationGraph.h"
#include "geometry/MixedLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Point2D.h"
#include "geometry/Point2LL.h"
#include "geometry/Point3LL.h"
#include "geometry/Polygon.h"
#include "geometry/SingleShape.h"
#include "geometry/conversions/Point2D_Point2LL.h"
#include "utils/AABB.h"
#include "utils/ExtrusionLine.h"
#include "utils/ExtrusionSegment.h"
#include "utils/NoCopy.h"
#include "utils/SVG.h"
#include "utils/ToolpathVisualizer.h"
#include "utils/VoronoiUtils.h"
#include <boost/polygon/voronoi.hpp>
#include <range/v3/numeric/accumulate.hpp>
#include <range/v3/to_container.hpp>
#include <range/v3/view/c_str.hpp>
#include <range/v3/view/concat.hpp>
#include <range/v3/view/join.hpp>
#include <range/v3/view/take.hpp>
#include <range/v3/view/transform.hpp>
#include <spdlog/spdlog.h>
#include <sstream>
#include <stdio.h> // for file output
#include <variant>
#include "utils/SVG.h"
#include "utils/ToolpathVisualizer.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::SVG::toString
namespace n1
{
using Color = cura::SVG::Color;
std::string r1(const Color color)
{
    switch (color)
    {
    case SVG::Color::BLACK:
        return "black";
    case SVG::Color::WHITE:
        return "white";
    case SVG::Color::GRAY:
        return "gray";
    case SVG::Color::RED:
        return "red";
    case SVG::Color::BLUE:
        return "blue";
    case SVG::Color::GREEN:
        return "green";
    case SVG::Color::LIME:
        return "lime";
    case SVG::Color::ORANGE:
        return "orange";
    case SVG::Color::MAGENTA:
        return "magenta";
    case SVG::Color::YELLOW:
        return "yellow";
    case SVG::Color::RAINBOW: 
        return "none";
    default:
        return "black";
    }
}
} // namespace n1

//= cura::SVG::toRgb
namespace n2
{
using Color = cura::SVG::Color;
using RgbColor = cura::SVG::RgbColor;
SVG::RgbColor r2(const Color color)
{
    switch (color)
    {
    case SVG::Color::WHITE:
        return RgbColor(255, 255, 255);
    case SVG::Color::GRAY:
        return RgbColor(128, 128, 128);
    case SVG::Color::RED:
        return RgbColor(255, 0, 0);
    case SVG::Color::BLUE:
        return RgbColor(0, 0, 255);
    case SVG::Color::GREEN:
        return RgbColor(0, 255, 0);
    case SVG::Color::LIME:
        return RgbColor(191, 255, 0);
    case SVG::Color::ORANGE:
        return RgbColor(255, 165, 0);
    case SVG::Color::MAGENTA:
        return RgbColor(255, 0, 255);
    case SVG::Color::YELLOW:
        return RgbColor(255, 255, 0);
    case SVG::Color::BLACK:
    case SVG::Color::RAINBOW: 
        return RgbColor(0, 0, 0);
    }
    return RgbColor{};
}
} // namespace n2

//= cura::SVG::toString
namespace n3
{
using Color = cura::SVG::Color;
using ColorObject = cura::SVG::ColorObject;
using RgbColor = cura::SVG::RgbColor;
std::string r3(const ColorObject& color)
{
    if (std::holds_alternative<Color>(color))
    {
        return cura::SVG::toString(std::get<Color>(color));
    }
    if (std::holds_alternative<RgbColor>(color))
    {
        const RgbColor& rgb_color = std::get<RgbColor>(color);
        std::ostringstream ss;
        ss << "rgb(" << rgb_color.r << "," << rgb_color.g << "," << rgb_color.b << ")";
        return ss.str();
    }
    return "none";
}
} // namespace n3

//= cura::SVG::toString
std::string r4(const std::vector<int>& dash_array)
{
    if (dash_array.size() >= 2)
    {
        return dash_array
             | ranges::views::transform(
                   [](const int dash_array_part)
                   {
                       return std::to_string(dash_array_part);
                   })
             | ranges::views::join(ranges::views::c_str(",")) | ranges::to<std::string>();
    }
    return "none";
}

//= cura::SVG::toString
namespace n5
{
using FillRule = cura::SVG::FillRule;
std::string r5(const FillRule fill_rule)
{
    switch (fill_rule)
    {
    case FillRule::NonZero:
        return "nonzero";
    case FillRule::EvenOdd:
        return "evenodd";
    case FillRule::None:
        break;
    }
    return "none";
}
} // namespace n5

//= cura::SVG::handleFlush
void r6(const cura::SVG& self, const bool flush)
{
    if (flush)
    {
        fflush(self.out_);
    }
}

//= cura::SVG::getScale
double r10(const cura::SVG& self)
{
    return self.scale_;
}

//= cura::SVG::nextLayer
void r11(cura::SVG& self)
{
    fprintf(self.out_, "  </g>\n");
    self.layer_nr_++;
    fprintf(self.out_, "  <g\n");
    fprintf(self.out_, "    inkscape:groupmode=\"layer\"\n");
    fprintf(self.out_, "    inkscape:label=\"layer%zu\"\n", self.layer_nr_);
    fprintf(self.out_, "    id=\"layer%zu\">\n", self.layer_nr_);
}

//= cura::SVG::transform
Point2LL r12(const cura::SVG& self, const Point2LL& p)
{
    return Point2LL(std::llrint(static_cast<double>(p.X - self.aabb_.min_.X) * self.scale_), std::llrint(static_cast<double>(self.aabb_.max_.Y - p.Y) * self.scale_));
}

//= cura::SVG::transformF
Point2D r13(const cura::SVG& self, const Point2LL& p)
{
    return Point2D(static_cast<double>(p.X - self.aabb_.min_.X) * self.scale_, static_cast<double>(self.aabb_.max_.Y - p.Y) * self.scale_);
}

//= cura::SVG::writeComment
void r14(const cura::SVG& self, const std::string& comment)
{
    fprintf(self.out_, "<!-- %s -->\n", comment.c_str());
}

//= cura::SVG::write
namespace n15
{
using FillRule = cura::SVG::FillRule;
using VisualAttributes = cura::SVG::VisualAttributes;
void r15(const cura::SVG& self, const Shape& shape, const VisualAttributes& visual_attributes, const bool flush)
{
    self.write(static_cast<LinesSet<Polygon>>(shape), visual_attributes, flush, FillRule::EvenOdd);
}
} // namespace n15

//= cura::SVG::write | ta=cura::Polygon
namespace n16
{
using LineType = cura::Polygon;
using FillRule = cura::SVG::FillRule;
using VisualAttributes = cura::SVG::VisualAttributes;
void r16(const cura::SVG& self, const LinesSet<LineType>& lines, const VisualAttributes& visual_attributes, const bool flush, const FillRule fill_rule)
{
    if (visual_attributes.line.isDisplayed() || visual_attributes.surface.isDisplayed())
    {
        if (visual_attributes.line.isRainbow())
        {
            self.write(lines, { .surface = visual_attributes.surface, .vertices = visual_attributes.vertices }, false);
            VisualAttributes rainbow_line_attributes{ .line = visual_attributes.line };
            for (const LineType& line : lines)
            {
                size_t index = 0;
                for (auto iterator = line.beginSegments(); iterator != line.endSegments(); ++iterator)
                {
                    rainbow_line_attributes.line.color = self.makeRainbowColor(index, line.segmentsCount());
                    self.write((*iterator).start, (*iterator).end, rainbow_line_attributes, false);
                    index++;
                }
            }
        }
        else
        {
            bool first_path = true;
            for (const LineType& line : lines)
            {
                if (first_path)
                {
                    fprintf(self.out_, "<path ");
                    self.write(visual_attributes.surface, fill_rule);
                    fprintf(
                        self.out_,
                        R"( stroke="%s" stroke-width="%f" stroke-dasharray="%s" stroke-opacity="%f" stroke-linecap="round" d=")",
                        self.toString(visual_attributes.line.color).c_str(),
                        visual_attributes.line.width,
                        self.toString(visual_attributes.line.dash_array).c_str(),
                        visual_attributes.line.alpha);
                    first_path = false;
                }
                self.writePathPoints(line);
            }
            if (! first_path)
            {
                fprintf(self.out_, "\" />\n");
            }
        }
    }
    for (const LineType& line : lines)
    {
        self.write(static_cast<PointsSet>(line), visual_attributes.vertices, false);
    }
    self.handleFlush(flush);
}
} // namespace n16

//= cura::SVG::write | ta=cura::OpenPolyline
namespace n17
{
using LineType = cura::OpenPolyline;
using FillRule = cura::SVG::FillRule;
using VisualAttributes = cura::SVG::VisualAttributes;
void r17(const cura::SVG& self, const LinesSet<LineType>& lines, const VisualAttributes& visual_attributes, const bool flush, const FillRule fill_rule)
{
    if (visual_attributes.line.isDisplayed() || visual_attributes.surface.isDisplayed())
    {
        if (visual_attributes.line.isRainbow())
        {
            self.write(lines, { .surface = visual_attributes.surface, .vertices = visual_attributes.vertices }, false);
            VisualAttributes rainbow_line_attributes{ .line = visual_attributes.line };
            for (const LineType& line : lines)
            {
                size_t index = 0;
                for (auto iterator = line.beginSegments(); iterator != line.endSegments(); ++iterator)
                {
                    rainbow_line_attributes.line.color = self.makeRainbowColor(index, line.segmentsCount());
                    self.write((*iterator).start, (*iterator).end, rainbow_line_attributes, false);
                    index++;
                }
            }
        }
        else
        {
            bool first_path = true;
            for (const LineType& line : lines)
            {
                if (first_path)
                {
                    fprintf(self.out_, "<path ");
                    self.write(visual_attributes.surface, fill_rule);
                    fprintf(
                        self.out_,
                        R"( stroke="%s" stroke-width="%f" stroke-dasharray="%s" stroke-opacity="%f" stroke-linecap="round" d=")",
                        self.toString(visual_attributes.line.color).c_str(),
                        visual_attributes.line.width,
                        self.toString(visual_attributes.line.dash_array).c_str(),
                        visual_attributes.line.alpha);
                    first_path = false;
                }
                self.writePathPoints(line);
            }
            if (! first_path)
            {
                fprintf(self.out_, "\" />\n");
            }
        }
    }
    for (const LineType& line : lines)
    {
        self.write(static_cast<PointsSet>(line), visual_attributes.vertices, false);
    }
    self.handleFlush(flush);
}
} // namespace n17

//= cura::SVG::write
namespace n18
{
using VisualAttributes = cura::SVG::VisualAttributes;
void r18(const cura::SVG& self, const OpenPolyline& line, const VisualAttributes& visual_attributes, const bool flush)
{
    self.write(LinesSet{ line }, visual_attributes, flush);
}
} // namespace n18

//= cura::SVG::write
namespace n19
{
using VisualAttributes = cura::SVG::VisualAttributes;
void r19(const cura::SVG& self, const ClosedPolyline& line, const VisualAttributes& visual_attributes, const bool flush)
{
    self.write(LinesSet{ line }, visual_attributes, flush);
}
} // namespace n19

//= cura::SVG::write
namespace n20
{
using VisualAttributes = cura::SVG::VisualAttributes;
void r20(const cura::SVG& self, const MixedLinesSet& lines, const VisualAttributes& visual_attributes, const bool flush)
{
    for (const PolylinePtr& line : lines)
    {
        if (auto open_polyline = dynamic_pointer_cast<OpenPolyline>(line))
        {
            self.write(*open_polyline, visual_attributes, false);
        }
        else if (auto closed_polyline = dynamic_pointer_cast<ClosedPolyline>(line))
        {
            self.write(*closed_polyline, visual_attributes, false);
        }
    }
    self.handleFlush(flush);
}
} // namespace n20

//= cura::SVG::write
namespace n21
{
using VerticesAttributes = cura::SVG::VerticesAttributes;
void r21(const cura::SVG& self, const PointsSet& points, const VerticesAttributes& visual_attributes, const bool flush)
{
    for (const Point2LL& point : points)
    {
        self.write(point, visual_attributes, false);
    }
    self.handleFlush(flush);
}
} // namespace n21

//= cura::SVG::write
namespace n22
{
using VerticesAttributes = cura::SVG::VerticesAttributes;
void r22(const cura::SVG& self, const Point2LL& point, const VerticesAttributes& visual_attributes, const bool flush)
{
    if (visual_attributes.isDisplayed())
    {
        Point2D transformed_point = self.transformF(point);
        fprintf(
            self.out_,
            "<circle cx=\"%f\" cy=\"%f\" r=\"%f\" stroke-width=\"0\" fill=\"%s\" />\n",
            static_cast<double>(transformed_point.x()),
            static_cast<double>(transformed_point.y()),
            static_cast<double>(visual_attributes.radius),
            self.toString(visual_attributes.color).c_str());
        if (visual_attributes.write_coords)
        {
            self.write(fmt::format("{},{}", point.X, point.Y), point, visual_attributes, false);
        }
    }
    self.handleFlush(flush);
}
} // namespace n22

//= cura::SVG::write
namespace n23
{
using VisualAttributes = cura::SVG::VisualAttributes;
void r23(const cura::SVG& self, const Point2LL& start, const Point2LL& end, const VisualAttributes& visual_attributes, const bool flush)
{
    self.write(OpenPolyline({ start, end }), visual_attributes, flush);
}
} // namespace n23

//= cura::SVG::writeArrow
namespace n24
{
using ColorObject = cura::SVG::ColorObject;
void r24(const cura::SVG& self, const Point2LL& a, const Point2LL& b, const ColorObject color, const double stroke_width, const double head_size)
{
    const Point2D fa = self.transformF(a);
    const Point2D fb = self.transformF(b);
    const Point2D ab = fb - fa;
    const Point2D normal = Point2D(ab.y(), -ab.x()).vNormalized().value();
    const Point2D direction = ab.vNormalized().value();
    const Point2D tip = fb + normal * head_size - direction * head_size;
    const Point2D b_base = fb + normal * stroke_width - direction * stroke_width * 2.41f;
    const Point2D a_base = fa + normal * stroke_width;
    fprintf(
        self.out_,
        "<polygon fill=\"%s\" points=\"%f,%f %f,%f %f,%f %f,%f %f,%f\" />",
        self.toString(color).c_str(),
        static_cast<double>(fa.x()),
        static_cast<double>(fa.y()),
        static_cast<double>(fb.x()),
        static_cast<double>(fb.y()),
        static_cast<double>(tip.x()),
        static_cast<double>(tip.y()),
        static_cast<double>(b_base.x()),
        static_cast<double>(b_base.y()),
        static_cast<double>(a_base.x()),
        static_cast<double>(a_base.y()));
}
} // namespace n24

//= cura::SVG::write
namespace n25
{
using VerticesAttributes = cura::SVG::VerticesAttributes;
void r25(const cura::SVG& self, const std::string& text, const Point2LL& p, const VerticesAttributes& vertices_attributes, const bool flush)
{
    const Point2D transformed_point = self.transformF(p);
    fprintf(
        self.out_,
        "<text x=\"%f\" y=\"%f\" style=\"font-size: %fpx;\" fill=\"%s\">%s</text>\n",
        transformed_point.x(),
        transformed_point.y(),
        vertices_attributes.font_size * self.scale_,
        self.toString(vertices_attributes.color).c_str(),
        text.c_str());
    self.handleFlush(flush);
}
} // namespace n25

//= cura::SVG::write
namespace n26
{
using LineAttributes = cura::SVG::LineAttributes;
using STVisualAttributes = cura::SVG::STVisualAttributes;
void r26(const cura::SVG& self, const SkeletalTrapezoidationGraph& graph, const STVisualAttributes& visual_attributes, const bool flush)
{
    const size_t start_edges_count = ranges::accumulate(
        graph.edges_,
        0,
        [](int total, const STHalfEdge& edge)
        {
            return total + (edge.prev_ == nullptr ? 1 : 0);
        });
    std::set<const STHalfEdge*> drawn_edges;
    std::set<const STHalfEdgeNode*> drawn_nodes;
    for (const auto& [index, edge] : graph.edges_ | ranges::views::enumerate)
    {
        if (edge.prev_ != nullptr)
        {
            continue;
        }
        STVisualAttributes loop_visual_attributes = visual_attributes;
        if (loop_visual_attributes.line.isRainbow())
        {
            loop_visual_attributes.line.color = self.makeRainbowColor(index, start_edges_count);
        }
        const STHalfEdge* current_edge = &edge;
        while (current_edge != nullptr)
        {
            if (! drawn_edges.contains(current_edge))
            {
                self.write(*current_edge, loop_visual_attributes, false, drawn_nodes);
                STVisualAttributes twin_visual_attributes = loop_visual_attributes;
                twin_visual_attributes.line = LineAttributes::hidden();
                if (current_edge->twin_)
                {
                    self.write(*current_edge->twin_, twin_visual_attributes, false, drawn_nodes);
                }
                if (! visual_attributes.edges_arrows)
                {
                    drawn_edges.emplace(current_edge);
                    drawn_edges.emplace(current_edge->twin_);
                }
                if (visual_attributes.beads_count.isDisplayed())
                {
                    drawn_nodes.emplace(current_edge->from_);
                    drawn_nodes.emplace(current_edge->to_);
                }
            }
            current_edge = current_edge->next_;
        }
    }
    self.handleFlush(flush);
}
} // namespace n26

//= cura::SVG::write
namespace n27
{
using STVisualAttributes = cura::SVG::STVisualAttributes;
void r27(const cura::SVG& self, const STHalfEdge& edge, const STVisualAttributes& visual_attributes, const bool flush, const std::set<const STHalfEdgeNode*>& drawn_nodes)
{
    if (visual_attributes.beads_count.isDisplayed())
    {
        if (! drawn_nodes.contains(edge.from_))
        {
            self.write(std::to_string(edge.from_->data_.bead_count_), edge.from_->p_, visual_attributes.beads_count, false);
        }
        if (! drawn_nodes.contains(edge.to_))
        {
            self.write(std::to_string(edge.to_->data_.bead_count_), edge.to_->p_, visual_attributes.beads_count, false);
        }
    }
    if (visual_attributes.junctions.isDisplayed() && edge.data_.hasExtrusionJunctions())
    {
        std::shared_ptr<LineJunctions> junctions = edge.data_.getExtrusionJunctions();
        for (const ExtrusionJunction& junction : *junctions)
        {
            self.write(junction.p_, visual_attributes.junctions);
        }
    }
    if (! visual_attributes.edges_arrows)
    {
        self.write(edge.from_->p_, edge.to_->p_, visual_attributes, flush);
        return;
    }
    const std::optional<Point2D> direction = toPoint2D(Point2LL(edge.to_->p_ - edge.from_->p_)).vNormalized();
    if (! direction.has_value())
    {
        return;
    }
    const Point2D radial = direction->rotated90CCW();
    const Point2LL delta_radial = toPoint2LL(radial * (visual_attributes.line.width * 0.65 / self.scale_));
    const Point2LL size_reduction_axial = toPoint2LL(direction.value() * (visual_attributes.line.width * 4.0 / self.scale_));
    OpenPolyline edge_half_arrow;
    edge_half_arrow.push_back(edge.from_->p_ + size_reduction_axial + delta_radial);
    edge_half_arrow.push_back(edge.to_->p_ - size_reduction_axial + delta_radial);
    const Point2LL tip_delta = toPoint2LL(-(direction.value() - radial) * (visual_attributes.line.width * 1.5 / self.scale_));
    edge_half_arrow.push_back(edge_half_arrow.back() + tip_delta);
    self.write(edge_half_arrow, visual_attributes, flush);
}
} // namespace n27

//= cura::SVG::write
namespace n28
{
using SurfaceAttributes = cura::SVG::SurfaceAttributes;
void r28(const cura::SVG& self, const std::vector<VariableWidthLines>& paths, const SurfaceAttributes& visual_attributes, const bool flush)
{
    for (const VariableWidthLines& lines : paths)
    {
        self.write(lines, visual_attributes, false);
    }
    self.handleFlush(flush);
}
} // namespace n28

//= cura::SVG::write
namespace n29
{
using SurfaceAttributes = cura::SVG::SurfaceAttributes;
void r29(const cura::SVG& self, const VariableWidthLines& lines, const SurfaceAttributes& visual_attributes, const bool flush)
{
    for (const ExtrusionLine& line : lines)
    {
        self.write(line, visual_attributes, false);
    }
    self.handleFlush(flush);
}
} // namespace n29

//= cura::SVG::write
namespace n30
{
using SurfaceAttributes = cura::SVG::SurfaceAttributes;
void r30(const cura::SVG& self, const ExtrusionLine& line, const SurfaceAttributes& visual_attributes, const bool flush)
{
    constexpr double minimum_line_width = 10; 
    if (line.junctions_.empty()) 
    {
        return;
    }
    ExtrusionJunction start_vertex = line.junctions_[0];
    for (size_t index = 1; index < line.junctions_.size(); ++index)
    {
        ExtrusionJunction end_vertex = line.junctions_[index];
        const Point2LL direction_vector = end_vertex.p_ - start_vertex.p_;
        const Point2LL direction_left = turn90CCW(direction_vector);
        const Point2LL direction_right = -direction_left; 
        const Point2D start_left = self.transformF(start_vertex.p_ + normal(direction_left, std::llrint(std::max(minimum_line_width, static_cast<double>(start_vertex.w_) / 2.0))));
        const Point2D start_right = self.transformF(start_vertex.p_ + normal(direction_right, std::llrint(std::max(minimum_line_width, static_cast<double>(start_vertex.w_) / 2.0))));
        const Point2D end_left = self.transformF(end_vertex.p_ + normal(direction_left, std::llrint(std::max(minimum_line_width, static_cast<double>(end_vertex.w_) / 2.0))));
        const Point2D end_right = self.transformF(end_vertex.p_ + normal(direction_right, std::llrint(std::max(minimum_line_width, static_cast<double>(end_vertex.w_) / 2.0))));
        fprintf(self.out_, "<polygon ");
        self.write(visual_attributes);
        fprintf(
            self.out_,
            " points=\"%f,%f %f,%f %f,%f %f,%f\" />\n",
            static_cast<double>(start_left.x()),
            static_cast<double>(start_left.y()),
            static_cast<double>(start_right.x()),
            static_cast<double>(start_right.y()),
            static_cast<double>(end_right.x()),
            static_cast<double>(end_right.y()),
            static_cast<double>(end_left.x()),
            static_cast<double>(end_left.y()));
        start_vertex = end_vertex; 
    }
    self.handleFlush(flush);
}
} // namespace n30

//= cura::SVG::write
namespace n31
{
using FillRule = cura::SVG::FillRule;
using SurfaceAttributes = cura::SVG::SurfaceAttributes;
void r31(const cura::SVG& self, const SurfaceAttributes& visual_attributes, const FillRule fill_rule)
{
    fprintf(self.out_, R"(fill="%s" fill-opacity="%f" fill-rule="%s")", self.toString(visual_attributes.color).c_str(), visual_attributes.alpha, self.toString(fill_rule).c_str());
}
} // namespace n31

//= cura::SVG::write
namespace n32
{
using LineAttributes = cura::SVG::LineAttributes;
void r32(const cura::SVG& self, const LineAttributes& visual_attributes)
{
    fprintf(
        self.out_,
        R"(stroke="%s" stroke-width="%f" stroke-dasharray="%s" stroke-opacity="%f" stroke-linecap="round")",
        self.toString(visual_attributes.color).c_str(),
        visual_attributes.width,
        self.toString(visual_attributes.dash_array).c_str(),
        visual_attributes.alpha);
}
} // namespace n32

//= cura::SVG::writeCoordinateGrid
namespace n33
{
using VisualAttributes = cura::SVG::VisualAttributes;
void r33(const cura::SVG& self, const coord_t grid_size, const VisualAttributes& visual_attributes, const bool flush)
{
    constexpr double dist_from_edge = 0.05; 
    const coord_t min_x = self.aabb_.min_.X - (self.aabb_.min_.X % grid_size);
    const coord_t min_y = self.aabb_.min_.Y - (self.aabb_.min_.Y % grid_size);
    for (coord_t x = min_x; x < self.aabb_.max_.X; x += grid_size)
    {
        self.write(Point2LL(x, self.aabb_.min_.Y), Point2LL(x, self.aabb_.max_.Y), visual_attributes);
        std::stringstream ss;
        ss << INT2MM(x);
        self.write(
            ss.str(),
            Point2LL(x, std::llrint(static_cast<double>(self.aabb_.min_.Y) + static_cast<double>(self.aabb_.max_.Y - self.aabb_.min_.Y) * dist_from_edge)),
            visual_attributes.vertices,
            false);
    }
    for (coord_t y = min_y; y < self.aabb_.max_.Y; y += grid_size)
    {
        self.write(Point2LL(self.aabb_.min_.X, y), Point2LL(self.aabb_.max_.Y, y), visual_attributes);
        std::stringstream ss;
        ss << INT2MM(y);
        self.write(
            ss.str(),
            Point2LL(std::llrint(static_cast<double>(self.aabb_.min_.X) + static_cast<double>(self.aabb_.max_.X - self.aabb_.min_.X) * dist_from_edge), y),
            visual_attributes.vertices,
            false);
    }
    self.handleFlush(flush);
}
} // namespace n33

//= cura::SVG::write | ta=long long
namespace n34
{
using DiagramVisualAttributes = cura::SVG::DiagramVisualAttributes;
void r34(const cura::SVG& self, const boost::polygon::voronoi_edge<VoronoiUtils::voronoi_data_t>& edge, const DiagramVisualAttributes& visual_attributes, const bool flush)
{
    if (edge.is_infinite())
    {
        return;
    }
    const auto& v0 = edge.vertex0();
    const auto& v1 = edge.vertex1();
    if (v0 == nullptr || v1 == nullptr)
    {
        return;
    }
    const Point2LL p0 = VoronoiUtils::p(v0);
    const Point2LL p1 = VoronoiUtils::p(v1);
    STHalfEdge half_edge = { SkeletalTrapezoidationEdge() };
    STHalfEdgeNode from(SkeletalTrapezoidationJoint(), p0);
    STHalfEdgeNode to(SkeletalTrapezoidationJoint(), p1);
    half_edge.from_ = &from;
    half_edge.to_ = &to;
    self.write(half_edge, visual_attributes, flush);
}
} // namespace n34

//= cura::SVG::write | ta=long long
namespace n35
{
using DiagramVisualAttributes = cura::SVG::DiagramVisualAttributes;
using VisualAttributes = cura::SVG::VisualAttributes;
void r35(const cura::SVG& self, const boost::polygon::voronoi_cell<VoronoiUtils::voronoi_data_t>& cell, const DiagramVisualAttributes& visual_attributes, const bool flush)
{
    const VoronoiUtils::vd_t::edge_type* start_edge = cell.incident_edge();
    if (! start_edge)
    {
        return;
    }
    Polygon cell_polygon;
    const VoronoiUtils::vd_t::edge_type* current_edge = start_edge;
    do
    {
        if (current_edge->is_finite())
        {
            if (visual_attributes.line.isDisplayed() || visual_attributes.vertices.isDisplayed())
            {
                self.write(*current_edge, visual_attributes, false);
            }
            if (visual_attributes.surface.isDisplayed())
            {
                const auto& v1 = current_edge->vertex1();
                if (v1 != nullptr)
                {
                    cell_polygon.push_back(VoronoiUtils::p(v1));
                }
            }
        }
        current_edge = current_edge->next();
    } while (current_edge && current_edge != start_edge);
    if (cell_polygon.isValid())
    {
        VisualAttributes cell_surface_attributes;
        cell_surface_attributes.surface = visual_attributes.surface;
        self.write(cell_polygon, cell_surface_attributes, false);
    }
    self.handleFlush(flush);
}
} // namespace n35

//= cura::SVG::write | ta=long long
namespace n36
{
using DiagramVisualAttributes = cura::SVG::DiagramVisualAttributes;
void r36(const cura::SVG& self, const VoronoiUtils::vd_t& voronoi_diagram, const DiagramVisualAttributes& visual_attributes, const bool flush)
{
    for (const auto& [index, cell] : voronoi_diagram.cells() | ranges::views::enumerate)
    {
        DiagramVisualAttributes cell_visual_attributes = visual_attributes;
        if (cell_visual_attributes.line.isRainbow())
        {
            cell_visual_attributes.line.color = self.makeRainbowColor(index, voronoi_diagram.cells().size());
        }
        self.write(cell, cell_visual_attributes, false);
    }
    self.handleFlush(flush);
}
} // namespace n36

//= cura::SVG::writePathPoints
void r37(const cura::SVG& self, const Polyline& line)
{
    bool first_segment = true;
    const bool has_closing_segment = line.hasClosingSegment();
    const auto before_last_iterator = std::next(line.endSegments(), -1);
    for (auto iterator = line.beginSegments(); iterator != line.endSegments(); ++iterator)
    {
        if (first_segment)
        {
            const Point2D transformed_start = self.transformF((*iterator).start);
            fprintf(self.out_, "M%f %f ", transformed_start.x(), transformed_start.y());
            first_segment = false;
        }
        if (! has_closing_segment || iterator != before_last_iterator)
        {
            const Point2D transformed_end = self.transformF((*iterator).end);
            fprintf(self.out_, "L%f,%f ", static_cast<double>(transformed_end.x()), static_cast<double>(transformed_end.y()));
        }
    }
    if (has_closing_segment)
    {
        fprintf(self.out_, "Z ");
    }
}

//= cura::SVG::makeRainbowColor
namespace n38
{
using RgbColor = cura::SVG::RgbColor;
SVG::RgbColor r38(const size_t index, const size_t elementsCount)
{
    RgbColor color;
    color.r = index * 255 / elementsCount;
    color.g = (index * 255 * 11 / elementsCount) % (255 * 2);
    if (color.g > 255)
    {
        color.g = 255 * 2 - color.g;
    }
    color.b = (index * 255 * 5 / elementsCount) % (255 * 2);
    if (color.b > 255)
    {
        color.b = 255 * 2 - color.b;
    }
    return color;
}
} // namespace n38

//= cura::ToolpathVisualizer::outline
void r39(cura::ToolpathVisualizer& self, const Shape& input)
{
    self.svg_.write(input, { .surface = { SVG::Color::GRAY } });
    self.svg_.nextLayer();
}

//= cura::ToolpathVisualizer::toolpaths
void r40(cura::ToolpathVisualizer& self, const std::vector<ExtrusionSegment>& all_segments, bool rounded_visualization)
{
    for (double w = .9; w > .25; w = 1.0 - (1.0 - w) * 1.2)
    {
        Shape polys;
        for (size_t segment_idx = 0; segment_idx < all_segments.size(); segment_idx++)
        {
            ExtrusionSegment s = all_segments[segment_idx];
            s.from_.w_ *= w / .9;
            s.to_.w_ *= w / .9;
            Shape covered = s.toShape(false);
            polys.push_back(covered);
        }
        int c = 255 - 200 * (w - .25);
        SVG::RgbColor clr(c, c, c);
        polys = polys.execute(ClipperLib::pftNonZero);
        polys = PolygonUtils::connect(polys);
        self.svg_.write(polys, { .surface = { clr } });
        if (! rounded_visualization)
            break;
    }
    self.svg_.nextLayer();
}

//= cura::ToolpathVisualizer::underfill
void r41(cura::ToolpathVisualizer& self, const Shape& underfills)
{
    self.svg_.write(underfills, { .surface = { SVG::RgbColor(0, 128, 255) } });
    self.svg_.nextLayer();
}

//= cura::ToolpathVisualizer::overfill
void r42(cura::ToolpathVisualizer& self, const Shape& overfills, const Shape& double_overfills)
{
    self.svg_.write(overfills, { .surface = { SVG::RgbColor(255, 128, 0) } });
    self.svg_.nextLayer();
    self.svg_.write(double_overfills, { .surface = { SVG::RgbColor(255, 100, 0) } });
    if (! double_overfills.empty())
    {
        self.svg_.nextLayer();
    }
}

//= cura::ToolpathVisualizer::width_legend
void r43(cura::ToolpathVisualizer& self, const Shape& input, coord_t nozzle_size, coord_t max_dev, coord_t min_w, bool rounded_visualization)
{
    auto to_string = [](double v)
    {
        std::ostringstream ss;
        ss << v;
        return ss.str();
    };
    AABB aabb(input);
    ExtrusionJunction legend_btm(Point2LL(aabb.max_.X + nozzle_size + max_dev, aabb.max_.Y), nozzle_size - max_dev, 0);
    ExtrusionJunction legend_top(Point2LL(aabb.max_.X + nozzle_size + max_dev, aabb.min_.Y), nozzle_size + max_dev, 0);
    ExtrusionJunction legend_mid((legend_top.p_ + legend_btm.p_) / 2, (legend_top.w_ + legend_btm.w_) / 2, 0);
    legend_btm.p_ += (legend_mid.p_ - legend_btm.p_) / 4;
    legend_top.p_ += (legend_mid.p_ - legend_top.p_) / 4;
    ExtrusionSegment legend_segment(legend_btm, legend_top, true, false);
    self.svg_.write(legend_segment.toShape(false), { .surface = { SVG::RgbColor(200, 200, 200) } }); 
    std::vector<ExtrusionSegment> all_segments_plus;
    all_segments_plus.emplace_back(legend_segment); 
    Point2LL legend_text_offset(nozzle_size, 0);
    self.svg_.write(to_string(INT2MM(legend_top.w_)), legend_top.p_ + legend_text_offset, { true });
    self.svg_.write(to_string(INT2MM(legend_btm.w_)), legend_btm.p_ + legend_text_offset, { true });
    self.svg_.write(to_string(INT2MM(legend_mid.w_)), legend_mid.p_ + legend_text_offset, { true });
    self.svg_.write(legend_top.p_, legend_top.p_ + legend_text_offset, { .line = {} });
    self.svg_.write(legend_btm.p_, legend_btm.p_ + legend_text_offset, { .line = {} });
    self.svg_.write(legend_mid.p_, legend_mid.p_ + legend_text_offset, { .line = {} });
    self.widths(all_segments_plus, nozzle_size, max_dev, min_w, rounded_visualization);
}

//= cura::SVG::RgbColor::RgbColor
void r45(cura::SVG::RgbColor& self, int red, int green, int blue)
{
member(self.r) = red;
member(self.g) = green;
member(self.b) = blue;
}

//END
}  // namespace ref
