// Stitching and connecting of lines.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "geometry/ClosedLinesSet.h"
#include "geometry/MixedLinesSet.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Point2LL.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "settings/types/Ratio.h"
#include "utils/AABB.h"
#include "utils/ExtrusionLineStitcher.h"
#include "utils/MixedPolylineStitcher.h"
#include "utils/OpenPolylineStitcher.h"
#include "utils/PolygonConnector.h"
#include "utils/PolygonsPointIndex.h"
#include "utils/PolylineStitcher.h"
#include "utils/linearAlg2D.h"
#include "utils/math.h"
#include "utils/polygonUtils.h"
#include <gtest/gtest_prod.h> //To allow tests to use protected members.
#include <vector>
#include "utils/PolygonConnector.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::PolygonConnector::PolygonConnector
void r2(cura::PolygonConnector& self, const coord_t line_width)
{
        member(self.line_width_) = line_width;
}

//= cura::PolygonConnector::add
void r3(cura::PolygonConnector& self, const Shape& input)
{
    for (const Polygon& poly : input)
    {
        self.input_polygons_.push_back(poly);
    }
}

//= cura::PolygonConnector::add
void r4(cura::PolygonConnector& self, const std::vector<VariableWidthLines>& input)
{
    for (const VariableWidthLines& lines : input)
    {
        for (const ExtrusionLine& line : lines)
        {
            self.input_paths_.push_back(line);
        }
    }
}

//= cura::PolygonConnector::getPosition
Point2LL r6(const cura::PolygonConnector& self, const Point2LL& vertex)
{
    return vertex;
}

//= cura::PolygonConnector::getPosition
Point2LL r7(const cura::PolygonConnector& self, const ExtrusionJunction& junction)
{
    return junction.p_;
}

//= cura::PolygonConnector::getWidth
coord_t r8(const cura::PolygonConnector& self, const Point2LL&)
{
    return self.line_width_;
}

//= cura::PolygonConnector::getWidth
coord_t r9(const cura::PolygonConnector& self, const ExtrusionJunction& junction)
{
    return junction.w_;
}

//= cura::PolygonConnector::addVertex
void r10(const cura::PolygonConnector& self, Polygon& polygonal, const Point2LL& position, const coord_t)
{
    polygonal.push_back(position);
}

//= cura::PolygonConnector::addVertex
void r11(const cura::PolygonConnector& self, Polygon& polygonal, const Point2LL& vertex)
{
    polygonal.push_back(vertex);
}

//= cura::PolygonConnector::addVertex
void r12(const cura::PolygonConnector& self, ExtrusionLine& polygonal, const Point2LL& position, const coord_t width)
{
    polygonal.emplace_back(position, width, 1); 
}

//= cura::PolygonConnector::addVertex
void r13(const cura::PolygonConnector& self, ExtrusionLine& polygonal, const ExtrusionJunction& vertex)
{
    polygonal.emplace_back(vertex);
}

//= cura::PolygonConnector::isClosed
bool r14(const cura::PolygonConnector& self, Polygon&)
{
    return true;
}

//= cura::PolygonConnector::isClosed
bool r15(const cura::PolygonConnector& self, ExtrusionLine& polygonal)
{
    return vSize2(polygonal.front() - polygonal.back()) < 25;
}

//= cura::PolylineStitcher::canReverse | cura::PolylineStitcher<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>, std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>, cura::ExtrusionLine, cura::ExtrusionJunction>
namespace n16
{
using PolylineStitcher = cura::PolylineStitcher<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>, std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>, cura::ExtrusionLine, cura::ExtrusionJunction>;
bool r16(const PathsPointIndex<VariableWidthLines>& ppi)
{
    if ((*ppi.polygons_)[ppi.poly_idx_].is_odd_)
    {
        return true;
    }
    else
    {
        return false;
    }
}
} // namespace n16

//= cura::PolylineStitcher::canReverse | cura::PolylineStitcher<cura::OpenLinesSet, cura::Shape, cura::OpenPolyline, ClipperLib::IntPoint>
namespace n17
{
using PolylineStitcher = cura::PolylineStitcher<cura::OpenLinesSet, cura::Shape, cura::OpenPolyline, ClipperLib::IntPoint>;
bool r17(const PathsPointIndex<OpenLinesSet>&)
{
    return true;
}
} // namespace n17

//= cura::PolylineStitcher::canReverse | cura::PolylineStitcher<cura::OpenLinesSet, cura::ClosedLinesSet, cura::OpenPolyline, ClipperLib::IntPoint>
namespace n18
{
using PolylineStitcher = cura::PolylineStitcher<cura::OpenLinesSet, cura::ClosedLinesSet, cura::OpenPolyline, ClipperLib::IntPoint>;
bool r18(const PathsPointIndex<OpenLinesSet>&)
{
    return true;
}
} // namespace n18

//= cura::PolylineStitcher::canConnect | cura::PolylineStitcher<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>, std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>, cura::ExtrusionLine, cura::ExtrusionJunction>
namespace n19
{
using PolylineStitcher = cura::PolylineStitcher<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>, std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>, cura::ExtrusionLine, cura::ExtrusionJunction>;
bool r19(const ExtrusionLine& a, const ExtrusionLine& b)
{
    return a.is_odd_ == b.is_odd_;
}
} // namespace n19

//= cura::PolylineStitcher::canConnect | cura::PolylineStitcher<cura::OpenLinesSet, cura::Shape, cura::OpenPolyline, ClipperLib::IntPoint>
namespace n20
{
using PolylineStitcher = cura::PolylineStitcher<cura::OpenLinesSet, cura::Shape, cura::OpenPolyline, ClipperLib::IntPoint>;
bool r20(const OpenPolyline&, const OpenPolyline&)
{
    return true;
}
} // namespace n20

//= cura::PolylineStitcher::canConnect | cura::PolylineStitcher<cura::OpenLinesSet, cura::ClosedLinesSet, cura::OpenPolyline, ClipperLib::IntPoint>
namespace n21
{
using PolylineStitcher = cura::PolylineStitcher<cura::OpenLinesSet, cura::ClosedLinesSet, cura::OpenPolyline, ClipperLib::IntPoint>;
bool r21(const OpenPolyline&, const OpenPolyline&)
{
    return true;
}
} // namespace n21

//= cura::PolylineStitcher::isOdd | cura::PolylineStitcher<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>, std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>, cura::ExtrusionLine, cura::ExtrusionJunction>
namespace n22
{
using PolylineStitcher = cura::PolylineStitcher<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>, std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>, cura::ExtrusionLine, cura::ExtrusionJunction>;
bool r22(const ExtrusionLine& line)
{
    return line.is_odd_;
}
} // namespace n22

//= cura::PolylineStitcher::isOdd | cura::PolylineStitcher<cura::OpenLinesSet, cura::Shape, cura::OpenPolyline, ClipperLib::IntPoint>
namespace n23
{
using PolylineStitcher = cura::PolylineStitcher<cura::OpenLinesSet, cura::Shape, cura::OpenPolyline, ClipperLib::IntPoint>;
bool r23(const OpenPolyline&)
{
    return false;
}
} // namespace n23

//= cura::PolylineStitcher::isOdd | cura::PolylineStitcher<cura::OpenLinesSet, cura::ClosedLinesSet, cura::OpenPolyline, ClipperLib::IntPoint>
namespace n24
{
using PolylineStitcher = cura::PolylineStitcher<cura::OpenLinesSet, cura::ClosedLinesSet, cura::OpenPolyline, ClipperLib::IntPoint>;
bool r24(const OpenPolyline&)
{
    return false;
}
} // namespace n24

//= cura::PolylineStitcher::pushToClosedResult | cura::PolylineStitcher<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>, std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>, cura::ExtrusionLine, cura::ExtrusionJunction>
namespace n25
{
using PolylineStitcher = cura::PolylineStitcher<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>, std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>, cura::ExtrusionLine, cura::ExtrusionJunction>;
void r25(VariableWidthLines& result_polygons, const ExtrusionLine& polyline)
{
    result_polygons.push_back(polyline);
}
} // namespace n25

//= cura::PolylineStitcher::pushToClosedResult | cura::PolylineStitcher<cura::OpenLinesSet, cura::Shape, cura::OpenPolyline, ClipperLib::IntPoint>
namespace n26
{
using PolylineStitcher = cura::PolylineStitcher<cura::OpenLinesSet, cura::Shape, cura::OpenPolyline, ClipperLib::IntPoint>;
void r26(Shape& result_polygons, const OpenPolyline& polyline)
{
    result_polygons.emplace_back(polyline.getPoints(), true);
}
} // namespace n26

//= cura::PolylineStitcher::pushToClosedResult | cura::PolylineStitcher<cura::OpenLinesSet, cura::ClosedLinesSet, cura::OpenPolyline, ClipperLib::IntPoint>
namespace n27
{
using PolylineStitcher = cura::PolylineStitcher<cura::OpenLinesSet, cura::ClosedLinesSet, cura::OpenPolyline, ClipperLib::IntPoint>;
void r27(ClosedLinesSet& result_polygons, const OpenPolyline& polyline)
{
    result_polygons.emplace_back(polyline.getPoints(), true);
}
} // namespace n27

//= cura::PolygonConnector::PolygonConnection::PolygonConnection | cura::PolygonConnector::PolygonConnection<cura::Polygon>
namespace n30
{
using Polygonal = cura::Polygon;
using PolygonConnection = cura::PolygonConnector::PolygonConnection<cura::Polygon>;
void r30(cura::PolygonConnector::PolygonConnection<cura::Polygon>& self, Polygonal* from_poly, const size_t from_segment, const Point2LL from_point, Polygonal* to_poly, const size_t to_segment, const Point2LL to_point)
{
member(self.from_poly_) = from_poly;
member(self.from_segment_) = from_segment;
member(self.from_point_) = from_point;
member(self.to_poly_) = to_poly;
member(self.to_segment_) = to_segment;
member(self.to_point_) = to_point;
}
} // namespace n30

//= cura::PolygonConnector::PolygonConnection::PolygonConnection | cura::PolygonConnector::PolygonConnection<cura::ExtrusionLine>
namespace n31
{
using Polygonal = cura::ExtrusionLine;
using PolygonConnection = cura::PolygonConnector::PolygonConnection<cura::ExtrusionLine>;
void r31(cura::PolygonConnector::PolygonConnection<cura::ExtrusionLine>& self, Polygonal* from_poly, const size_t from_segment, const Point2LL from_point, Polygonal* to_poly, const size_t to_segment, const Point2LL to_point)
{
member(self.from_poly_) = from_poly;
member(self.from_segment_) = from_segment;
member(self.from_point_) = from_point;
member(self.to_poly_) = to_poly;
member(self.to_segment_) = to_segment;
member(self.to_point_) = to_point;
}
} // namespace n31

//= cura::PolygonConnector::createEmpty | ta=cura::Polygon
namespace n36
{
using Polygonal = cura::Polygon;
Polygonal r36(const cura::PolygonConnector& self)
{
    return Polygonal();
}
} // namespace n36

//= cura::PolygonConnector::interpolateWidth | ta=ClipperLib::IntPoint
namespace n39
{
using Vertex = ClipperLib::IntPoint;
coord_t r39(const cura::PolygonConnector& self, const Point2LL position, Vertex a, Vertex b)
{
    const coord_t total_length = vSize(self.getPosition(a) - self.getPosition(b));
    if (total_length == 0) 
    {
        return self.getWidth(a); 
    }
    const coord_t position_along_length = vSize(position - self.getPosition(a));
    return round_divide(self.getWidth(b) * position_along_length, total_length) + round_divide(self.getWidth(a) * (total_length - position_along_length), total_length);
}
} // namespace n39

//= cura::PolygonConnector::interpolateWidth | ta=cura::ExtrusionJunction
namespace n40
{
using Vertex = cura::ExtrusionJunction;
coord_t r40(const cura::PolygonConnector& self, const Point2LL position, Vertex a, Vertex b)
{
    const coord_t total_length = vSize(self.getPosition(a) - self.getPosition(b));
    if (total_length == 0) 
    {
        return self.getWidth(a); 
    }
    const coord_t position_along_length = vSize(position - self.getPosition(a));
    return round_divide(self.getWidth(b) * position_along_length, total_length) + round_divide(self.getWidth(a) * (total_length - position_along_length), total_length);
}
} // namespace n40

//END
}  // namespace ref
