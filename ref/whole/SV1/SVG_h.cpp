// What the functions of this unit compute.
#ifndef SVG_H
#define SVG_H
#include <stdio.h>
#include <variant>
#include <boost/polygon/voronoi.hpp>
#include "utils/AABB.h"
#include "utils/ExtrusionLine.h"
#include "utils/NoCopy.h"
#include "geometry/Point2LL.h"
namespace cura
{
class Point2D;
class MixedLinesSet;
class SkeletalTrapezoidationGraph;
class STHalfEdge;
class STHalfEdgeNode;
class SVG : NoCopy
{
public:
    enum class Color
    {
        BLACK,
        WHITE,
        GRAY,
        RED,
        BLUE,
        GREEN,
        LIME,
        ORANGE,
        MAGENTA,
        YELLOW,
        RAINBOW,
    };
    enum class FillRule
    {
        None,
        NonZero,
        EvenOdd
    };
    struct RgbColor
    {
        int r{ 0 };
        int g{ 0 };
        int b{ 0 };
        RgbColor() = default;
        RgbColor(int red, int green, int blue)
            : r(red)
            , g(green)
            , b(blue)
        {
        }
    };
    using ColorObject = std::variant<std::monostate, Color, RgbColor>;
    struct ElementAttributes
    {
        ColorObject color{ Color::BLACK };
        double alpha{ 1.0 };
        ElementAttributes() = default;
//= cura::SVG::ElementAttributes::ElementAttributes
        ElementAttributes(const ColorObject& color)
            : color(color)
        {
        }
//END
//= cura::SVG::ElementAttributes::ElementAttributes
        ElementAttributes(const ColorObject& color, const double alpha)
            : color(color)
            , alpha(alpha)
        {
        }
//END
        virtual ~ElementAttributes() = default;
//= cura::SVG::ElementAttributes::isDisplayed
        virtual bool isDisplayed() const
        {
            return alpha > 0.0 && (std::holds_alternative<Color>(color) || std::holds_alternative<RgbColor>(color));
        }
//END
//= cura::SVG::ElementAttributes::isRainbow
        bool isRainbow() const
        {
            return std::holds_alternative<Color>(color) && std::get<Color>(color) == Color::RAINBOW;
        }
//END
    };
    struct SurfaceAttributes : ElementAttributes
    {
        SurfaceAttributes() = default;
//= cura::SVG::SurfaceAttributes::SurfaceAttributes
        SurfaceAttributes(const ColorObject& color)
            : ElementAttributes(color)
        {
        }
//END
//= cura::SVG::SurfaceAttributes::SurfaceAttributes
        SurfaceAttributes(const ColorObject& color, const double alpha)
            : ElementAttributes(color, alpha)
        {
        }
//END
        ~SurfaceAttributes() override = default;
    };
    struct LineAttributes : ElementAttributes
    {
        double width{ 0.4 };
        std::vector<int> dash_array{};
        LineAttributes() = default;
//= cura::SVG::LineAttributes::LineAttributes
        LineAttributes(const ColorObject& color, const double width)
            : ElementAttributes(color)
            , width(width)
        {
        }
//END
//= cura::SVG::LineAttributes::LineAttributes
        LineAttributes(const ColorObject& color, const double width, const double alpha)
            : ElementAttributes(color, alpha)
            , width(width)
        {
        }
//END
//= cura::SVG::LineAttributes::LineAttributes
        LineAttributes(const ColorObject& color)
            : ElementAttributes(color)
        {
        }
//END
//= cura::SVG::LineAttributes::LineAttributes
        LineAttributes(const double width)
            : ElementAttributes()
            , width(width)
        {
        }
//END
        ~LineAttributes() override = default;
//= cura::SVG::LineAttributes::hidden
        static LineAttributes hidden()
        {
            return LineAttributes(ColorObject(), 0.0);
        }
//END
//= cura::SVG::LineAttributes::isDisplayed
        bool isDisplayed() const override
        {
            return ElementAttributes::isDisplayed() && width > 0.0;
        }
//END
    };
    struct VerticesAttributes : ElementAttributes
    {
        double radius{ 0.2 };
        bool write_coords{ false };
        double font_size{ 10 };
        VerticesAttributes() = default;
//= cura::SVG::VerticesAttributes::VerticesAttributes
        VerticesAttributes(const ColorObject& color, const double radius, const bool write_coords, const double font_size)
            : ElementAttributes(color)
            , radius(radius)
            , write_coords(write_coords)
            , font_size(font_size)
        {
        }
//END
//= cura::SVG::VerticesAttributes::VerticesAttributes
        VerticesAttributes(const ColorObject& color, const double radius)
            : ElementAttributes(color)
            , radius(radius)
        {
        }
//END
//= cura::SVG::VerticesAttributes::VerticesAttributes
        VerticesAttributes(const ColorObject& color)
            : ElementAttributes(color)
        {
        }
//END
//= cura::SVG::VerticesAttributes::VerticesAttributes
        VerticesAttributes(const double radius)
            : ElementAttributes()
            , radius(radius)
        {
        }
//END
//= cura::SVG::VerticesAttributes::VerticesAttributes
        VerticesAttributes(const bool write_coords)
            : ElementAttributes()
            , write_coords(write_coords)
        {
        }
//END
        ~VerticesAttributes() override = default;
//= cura::SVG::VerticesAttributes::hidden
        static VerticesAttributes hidden()
        {
            return VerticesAttributes(SVG::ColorObject(), 0.0);
        }
//END
//= cura::SVG::VerticesAttributes::isDisplayed
        bool isDisplayed() const override
        {
            return ElementAttributes::isDisplayed() && (radius > 0.0 || (write_coords && font_size > 0.0));
        }
//END
    };
    struct VisualAttributes
    {
        SurfaceAttributes surface{ ColorObject() };
        LineAttributes line{ ColorObject(), 0.0 };
        VerticesAttributes vertices{ ColorObject(), 0.0 };
    };
    struct DiagramVisualAttributes : VisualAttributes
    {
        bool edges_arrows{ true };
//= cura::SVG::DiagramVisualAttributes::DiagramVisualAttributes
        DiagramVisualAttributes(const VisualAttributes& visual_attributes, const bool edges_arrows = true)
            : VisualAttributes(visual_attributes)
            , edges_arrows(edges_arrows)
        {
        }
//END
    };
    struct STVisualAttributes : DiagramVisualAttributes
    {
        VerticesAttributes beads_count;
        VerticesAttributes junctions;
//= cura::SVG::STVisualAttributes::STVisualAttributes
        STVisualAttributes(
            const DiagramVisualAttributes& diagram_attributes,
            const VerticesAttributes& beads_count = VerticesAttributes::hidden(),
            const VerticesAttributes& junctions = VerticesAttributes::hidden())
            : DiagramVisualAttributes(diagram_attributes)
            , beads_count(beads_count)
            , junctions(junctions)
        {
        }
//END
    };
private:
    static std::string toString(const ColorObject& color);
    static std::string toString(const std::vector<int>& dash_array);
    static std::string toString(const FillRule fill_rule);
    void handleFlush(const bool flush) const;
    FILE* out_;
    const AABB aabb_;
    const Point2LL aabb_size_;
    const Point2LL canvas_size_;
    const double scale_;
    size_t layer_nr_ = 1;
    bool output_is_html_;
public:
    SVG(const std::string& filename, const AABB& aabb, const Point2LL& canvas_size, const ColorObject& background = ColorObject());
    SVG(const std::string& filename, const AABB& aabb, const double scale = 1.0, const ColorObject& background = ColorObject());
    SVG(const std::string& filename, const AABB& aabb, const double scale, const Point2LL& canvas_size, const ColorObject& background = ColorObject());
    ~SVG();
    static std::string toString(const Color color);
    static RgbColor toRgb(const Color color);
    double getScale() const;
    void nextLayer();
    Point2LL transform(const Point2LL& p) const;
    Point2D transformF(const Point2LL& p) const;
    void writeComment(const std::string& comment) const;
    void write(const Shape& shape, const VisualAttributes& visual_attributes, const bool flush = true) const;
    template<class LineType>
    void write(const LinesSet<LineType>& lines, const VisualAttributes& visual_attributes, const bool flush = true, const FillRule fill_rule = FillRule::None) const;
    void write(const OpenPolyline& line, const VisualAttributes& visual_attributes, const bool flush = true) const;
    void write(const ClosedPolyline& line, const VisualAttributes& visual_attributes, const bool flush = true) const;
    void write(const MixedLinesSet& lines, const VisualAttributes& visual_attributes, const bool flush = true) const;
    void write(const Point2LL& start, const Point2LL& end, const VisualAttributes& visual_attributes, const bool flush = true) const;
    void write(const PointsSet& points, const VerticesAttributes& visual_attributes, const bool flush = true) const;
    void write(const Point2LL& point, const VerticesAttributes& visual_attributes, const bool flush = true) const;
    void write(const std::string& text, const Point2LL& p, const VerticesAttributes& vertices_attributes, const bool flush = true) const;
    void write(const SkeletalTrapezoidationGraph& graph, const STVisualAttributes& visual_attributes, const bool flush = true) const;
    void write(const STHalfEdge& edge, const STVisualAttributes& visual_attributes, const bool flush = true, const std::set<const STHalfEdgeNode*>& drawn_nodes = {}) const;
    template<typename T>
    void write(const boost::polygon::voronoi_diagram<T>& voronoi_diagram, const DiagramVisualAttributes& visual_attributes, const bool flush = true) const;
    template<typename T>
    void write(const boost::polygon::voronoi_edge<T>& edge, const DiagramVisualAttributes& visual_attributes, const bool flush = true) const;
    template<typename T>
    void write(const boost::polygon::voronoi_cell<T>& cell, const DiagramVisualAttributes& visual_attributes, const bool flush = true) const;
    void writeArrow(const Point2LL& a, const Point2LL& b, const ColorObject color = Color::BLACK, const double stroke_width = 1.0, const double head_size = 5.0) const;
    template<typename... Args>
    void printf(const char* txt, Args&&... args) const;
    void write(const std::vector<VariableWidthLines>& paths, const SurfaceAttributes& visual_attributes, const bool flush = true) const;
    void write(const VariableWidthLines& lines, const SurfaceAttributes& visual_attributes, const bool flush = true) const;
    void write(const ExtrusionLine& line, const SurfaceAttributes& visual_attributes, const bool flush = true) const;
    void write(const SurfaceAttributes& visual_attributes, const FillRule fill_rule = FillRule::None) const;
    void write(const LineAttributes& visual_attributes) const;
    void writeCoordinateGrid(const coord_t grid_size, const VisualAttributes& visual_attributes, const bool flush = true) const;
private:
    void writePathPoints(const Polyline& line) const;
    static RgbColor makeRainbowColor(const size_t index, const size_t elementsCount);
};
//= skip cura::SVG::printf
template<typename... Args>
void SVG::printf(const char* txt, Args&&... args) const
{
    fprintf(out_, txt, args...);
}
//END
}
#endif
