// What the functions of this unit compute.
#include "utils/SVG.h"
#include <sstream>
#include <range/v3/numeric/accumulate.hpp>
#include <range/v3/to_container.hpp>
#include <range/v3/view/c_str.hpp>
#include <range/v3/view/concat.hpp>
#include <range/v3/view/join.hpp>
#include <range/v3/view/take.hpp>
#include <range/v3/view/transform.hpp>
#include <spdlog/spdlog.h>
#include "arachne/SkeletalTrapezoidationGraph.h"
#include "geometry/MixedLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Point2D.h"
#include "geometry/Polygon.h"
#include "geometry/SingleShape.h"
#include "geometry/conversions/Point2D_Point2LL.h"
#include "utils/ExtrusionLine.h"
#include "utils/VoronoiUtils.h"
namespace cura
{
//= cura::SVG::SVG
SVG::SVG(const std::string& filename, const AABB& aabb, const Point2LL& canvas_size, const ColorObject& background)
    : SVG(filename,
          aabb,
          std::min(
              static_cast<double>(canvas_size.X - canvas_size.X / 5 * 2) / static_cast<double>(aabb.max_.X - aabb.min_.X),
              static_cast<double>(canvas_size.Y - canvas_size.Y / 5) / static_cast<double>(aabb.max_.Y - aabb.min_.Y)),
          canvas_size,
          background)
{
}
//END
//= cura::SVG::SVG
SVG::SVG(const std::string& filename, const AABB& aabb, double scale, const ColorObject& background)
    : SVG(filename, aabb, scale, (aabb.max_ - aabb.min_) * scale, background)
{
}
//END
//= cura::SVG::SVG
SVG::SVG(const std::string& filename, const AABB& aabb, double scale, const Point2LL& canvas_size, const ColorObject& background)
    : aabb_(aabb)
    , aabb_size_(aabb.max_ - aabb.min_)
    , canvas_size_(canvas_size)
    , scale_(scale)
{
    output_is_html_ = strcmp(filename.c_str() + strlen(filename.c_str()) - 4, "html") == 0;
    out_ = fopen(filename.c_str(), "w");
    if (! out_)
    {
        spdlog::error("The file {} could not be opened for writing.", filename);
    }
    if (output_is_html_)
    {
        fprintf(out_, "<!DOCTYPE html><html><body>\n");
    }
    else
    {
        fprintf(out_, "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>\n");
    }
    fprintf(out_, "<svg \n");
    fprintf(out_, "   xmlns=\"http://www.w3.org/2000/svg\"\n");
    fprintf(out_, "   xmlns:inkscape=\"http://www.inkscape.org/namespaces/inkscape\"\n");
    fprintf(out_, "   height=\"%f\"\n", scale_ * static_cast<double>(aabb_.max_.Y - aabb_.min_.Y));
    fprintf(out_, "   width=\"%f\"\n", scale_ * static_cast<double>(aabb_.max_.X - aabb_.min_.X));
    fprintf(out_, "   version=\"1.1\">\n");
    fprintf(out_, "  <g\n");
    fprintf(out_, "    inkscape:groupmode=\"layer\"\n");
    fprintf(out_, "    inkscape:label=\"layer%zu\"\n", layer_nr_);
    fprintf(out_, "    id=\"layer%zu\">\n", layer_nr_);
    if (! std::holds_alternative<std::monostate>(background))
    {
        std::string background_str = toString(background);
        fprintf(out_, "<rect width=\"100%%\" height=\"100%%\" fill=\"%s\"/>\n", background_str.c_str());
    }
}
//END
template<class LineType>
void SVG::write(const LinesSet<LineType>& lines, const VisualAttributes& visual_attributes, const bool flush, const FillRule fill_rule) const
{
    if (visual_attributes.line.isDisplayed() || visual_attributes.surface.isDisplayed())
    {
        if (visual_attributes.line.isRainbow())
        {
            write(lines, { .surface = visual_attributes.surface, .vertices = visual_attributes.vertices }, false);
            VisualAttributes rainbow_line_attributes{ .line = visual_attributes.line };
            for (const LineType& line : lines)
            {
                size_t index = 0;
                for (auto iterator = line.beginSegments(); iterator != line.endSegments(); ++iterator)
                {
                    rainbow_line_attributes.line.color = makeRainbowColor(index, line.segmentsCount());
                    write((*iterator).start, (*iterator).end, rainbow_line_attributes, false);
                    index++;
                }
            }
        }
        else
        {
            bool first_path = true;
            for (const LineType& line : lines)
            {
                if (first_path)
                {
                    fprintf(out_, "<path ");
                    write(visual_attributes.surface, fill_rule);
                    fprintf(
                        out_,
                        R"( stroke="%s" stroke-width="%f" stroke-dasharray="%s" stroke-opacity="%f" stroke-linecap="round" d=")",
                        toString(visual_attributes.line.color).c_str(),
                        visual_attributes.line.width,
                        toString(visual_attributes.line.dash_array).c_str(),
                        visual_attributes.line.alpha);
                    first_path = false;
                }
                writePathPoints(line);
            }
            if (! first_path)
            {
                fprintf(out_, "\" />\n");
            }
        }
    }
    for (const LineType& line : lines)
    {
        write(static_cast<PointsSet>(line), visual_attributes.vertices, false);
    }
    handleFlush(flush);
}
template void SVG::write(const LinesSet<Polygon>& lines, const VisualAttributes& visual_attributes, const bool flush, const FillRule fill_rule) const;
template void SVG::write(const LinesSet<OpenPolyline>& lines, const VisualAttributes& visual_attributes, const bool flush, const FillRule fill_rule) const;
template void SVG::write(const LinesSet<ClosedPolyline>& lines, const VisualAttributes& visual_attributes, const bool flush, const FillRule fill_rule) const;
template<>
void SVG::write(const boost::polygon::voronoi_edge<VoronoiUtils::voronoi_data_t>& edge, const DiagramVisualAttributes& visual_attributes, const bool flush) const
{
    if (edge.is_infinite())
    {
        return;
    }
    const auto& v0 = edge.vertex0();
    const auto& v1 = edge.vertex1();
    if (v0 == nullptr || v1 == nullptr)
    {
        return;
    }
    const Point2LL p0 = VoronoiUtils::p(v0);
    const Point2LL p1 = VoronoiUtils::p(v1);
    STHalfEdge half_edge = { SkeletalTrapezoidationEdge() };
    STHalfEdgeNode from(SkeletalTrapezoidationJoint(), p0);
    STHalfEdgeNode to(SkeletalTrapezoidationJoint(), p1);
    half_edge.from_ = &from;
    half_edge.to_ = &to;
    write(half_edge, visual_attributes, flush);
}
template<>
void SVG::write(const boost::polygon::voronoi_cell<VoronoiUtils::voronoi_data_t>& cell, const DiagramVisualAttributes& visual_attributes, const bool flush) const
{
    const VoronoiUtils::vd_t::edge_type* start_edge = cell.incident_edge();
    if (! start_edge)
    {
        return;
    }
    Polygon cell_polygon;
    const VoronoiUtils::vd_t::edge_type* current_edge = start_edge;
    do
    {
        if (current_edge->is_finite())
        {
            if (visual_attributes.line.isDisplayed() || visual_attributes.vertices.isDisplayed())
            {
                write(*current_edge, visual_attributes, false);
            }
            if (visual_attributes.surface.isDisplayed())
            {
                const auto& v1 = current_edge->vertex1();
                if (v1 != nullptr)
                {
                    cell_polygon.push_back(VoronoiUtils::p(v1));
                }
            }
        }
        current_edge = current_edge->next();
    } while (current_edge && current_edge != start_edge);
    if (cell_polygon.isValid())
    {
        VisualAttributes cell_surface_attributes;
        cell_surface_attributes.surface = visual_attributes.surface;
        write(cell_polygon, cell_surface_attributes, false);
    }
    handleFlush(flush);
}
template<>
void SVG::write(const VoronoiUtils::vd_t& voronoi_diagram, const DiagramVisualAttributes& visual_attributes, const bool flush) const
{
    for (const auto& [index, cell] : voronoi_diagram.cells() | ranges::views::enumerate)
    {
        DiagramVisualAttributes cell_visual_attributes = visual_attributes;
        if (cell_visual_attributes.line.isRainbow())
        {
            cell_visual_attributes.line.color = makeRainbowColor(index, voronoi_diagram.cells().size());
        }
        write(cell, cell_visual_attributes, false);
    }
    handleFlush(flush);
}
}
