// What the functions of this unit compute.
#ifndef UTILS_POLYGON_CONNECTOR_H
#define UTILS_POLYGON_CONNECTOR_H
#ifdef BUILD_TESTS
#include <gtest/gtest_prod.h>
#endif
#include <vector>
#include "geometry/Point2LL.h"
#include "geometry/Polygon.h"
#include "utils/linearAlg2D.h"
#include "utils/polygonUtils.h"
#include "settings/types/Ratio.h"
#include "utils/math.h"
namespace cura
{
class PolygonConnector
{
#ifdef BUILD_TESTS
    FRIEND_TEST(PolygonConnectorTest, getBridgeNestedSquares);
    FRIEND_TEST(PolygonConnectorTest, getBridgeAdjacentSquares);
    FRIEND_TEST(PolygonConnectorTest, getBridgeClosest);
    FRIEND_TEST(PolygonConnectorTest, getBridgeTooFar);
    FRIEND_TEST(PolygonConnectorTest, getBridgeTooNarrow);
#endif
public:
    PolygonConnector(const coord_t line_width);
    void add(const Shape& input);
    void add(const std::vector<VariableWidthLines>& input);
    void connect(Shape& output_polygons, std::vector<VariableWidthLines>& output_paths);
protected:
    coord_t line_width_;
    std::vector<Polygon> input_polygons_;
    std::vector<ExtrusionLine> input_paths_;
    constexpr static Ratio max_gap_ = 0.5;
    template<typename Polygonal>
    struct PolygonConnection
    {
        Polygonal* from_poly_;
        size_t from_segment_;
        Point2LL from_point_;
        Polygonal* to_poly_;
        size_t to_segment_;
        Point2LL to_point_;
        PolygonConnection(Polygonal* from_poly, const size_t from_segment, const Point2LL from_point, Polygonal* to_poly, const size_t to_segment, const Point2LL to_point)
            : from_poly_(from_poly)
            , from_segment_(from_segment)
            , from_point_(from_point)
            , to_poly_(to_poly)
            , to_segment_(to_segment)
            , to_point_(to_point)
        {
        }
//= skip cura::PolygonConnector::PolygonConnection::getDistance2
        coord_t getDistance2() const
        {
            return vSize2(from_point_ - to_point_);
        }
//END
    };
    template<typename Polygonal>
    struct PolygonBridge
    {
        PolygonConnection<Polygonal> a_;
        PolygonConnection<Polygonal> b_;
//= cura::PolygonConnector::PolygonBridge::PolygonBridge
        PolygonBridge(const PolygonConnection<Polygonal>& a, const PolygonConnection<Polygonal>& b)
            : a_(a)
            , b_(b)
        {
        }
//END
    };
//= cura::PolygonConnector::connectGroup
    template<typename Polygonal>
    std::vector<Polygonal> connectGroup(std::vector<Polygonal>& to_connect)
    {
        std::vector<Polygonal> result;
        while (! to_connect.empty())
        {
            if (to_connect.size() == 1)
            {
                result.push_back(to_connect[0]);
                break;
            }
            Polygonal current = std::move(to_connect.back());
            to_connect.pop_back();
            if (! isClosed(current))
            {
                result.push_back(current);
                continue;
            }
            std::optional<PolygonBridge<Polygonal>> bridge = getBridge(current, to_connect);
            if (bridge)
            {
                connectPolygonsAlongBridge(*bridge, *bridge->a_.to_poly_);
            }
            else
            {
                result.push_back(current);
            }
        }
        return result;
    }
//END
    Point2LL getPosition(const Point2LL& vertex) const;
    Point2LL getPosition(const ExtrusionJunction& vertex) const;
    coord_t getWidth(const Point2LL& vertex) const;
    coord_t getWidth(const ExtrusionJunction& vertex) const;
    void addVertex(Polygon& polygonal, const Point2LL& position, const coord_t width) const;
    void addVertex(Polygon& polygonal, const Point2LL& vertex) const;
    void addVertex(ExtrusionLine& polygonal, const Point2LL& position, const coord_t width) const;
    void addVertex(ExtrusionLine& polygonal, const ExtrusionJunction& vertex) const;
    bool isClosed(Polygon& polygonal) const;
    bool isClosed(ExtrusionLine& polygonal) const;
    template<typename Polygonal>
    Polygonal createEmpty() const
    {
        return Polygonal();
    }
//= cura::PolygonConnector::getSpace
    template<typename Polygonal>
    coord_t getSpace(const PolygonConnection<Polygonal>& connection) const
    {
        const coord_t from_width = interpolateWidth(
            connection.from_point_,
            (*connection.from_poly_)[connection.from_segment_],
            (*connection.from_poly_)[(connection.from_segment_ + 1) % connection.from_poly_->size()]);
        const coord_t to_width = interpolateWidth(
            connection.to_point_,
            (*connection.to_poly_)[connection.to_segment_],
            (*connection.to_poly_)[(connection.to_segment_ + 1) % connection.to_poly_->size()]);
        return vSize(connection.to_point_ - connection.from_point_) - from_width / 2 - to_width / 2;
    }
//END
    template<typename Vertex>
    coord_t interpolateWidth(const Point2LL position, Vertex a, Vertex b) const
    {
        const coord_t total_length = vSize(getPosition(a) - getPosition(b));
        if (total_length == 0)
        {
            return getWidth(a);
        }
        const coord_t position_along_length = vSize(position - getPosition(a));
        return round_divide(getWidth(b) * position_along_length, total_length) + round_divide(getWidth(a) * (total_length - position_along_length), total_length);
    }
//= cura::PolygonConnector::findConnection
    template<typename Polygonal>
    std::optional<PolygonBridge<Polygonal>> findConnection(Polygonal& from_poly, std::vector<Polygonal>& to_polygons)
    {
        coord_t best_distance = line_width_ * max_gap_;
        std::optional<PolygonConnection<Polygonal>> best_connection;
        std::optional<PolygonConnection<Polygonal>> best_second_connection;
        for (size_t poly_index = 0; poly_index < to_polygons.size(); ++poly_index)
        {
            if (! isClosed(to_polygons[poly_index]))
            {
                continue;
            }
            for (size_t to_index = 0; to_index < to_polygons[poly_index].size(); ++to_index)
            {
                const Point2LL to_pos1 = getPosition(to_polygons[poly_index][to_index]);
                const coord_t to_width1 = getWidth(to_polygons[poly_index][to_index]);
                const Point2LL to_pos2 = getPosition(to_polygons[poly_index][(to_index + 1) % to_polygons[poly_index].size()]);
                const coord_t to_width2 = getWidth(to_polygons[poly_index][(to_index + 1) % to_polygons[poly_index].size()]);
                const coord_t smallest_to_width = std::min(to_width1, to_width2);
                for (size_t from_index = 0; from_index < from_poly.size(); ++from_index)
                {
                    const Point2LL from_pos1 = getPosition(from_poly[from_index]);
                    const coord_t from_width1 = getWidth(from_poly[from_index]);
                    const Point2LL from_pos2 = getPosition(from_poly[(from_index + 1) % from_poly.size()]);
                    const coord_t from_width2 = getWidth(from_poly[(from_index + 1) % from_poly.size()]);
                    const coord_t smallest_from_width = std::min(from_width1, from_width2);
                    coord_t naive_dist = LinearAlg2D::getDistFromLine(from_pos1, to_pos1, to_pos2);
                    if (naive_dist - from_width1 - smallest_to_width < line_width_ * max_gap_)
                    {
                        const Point2LL closest_point = LinearAlg2D::getClosestOnLineSegment(from_pos1, to_pos1, to_pos2);
                        if (closest_point == to_pos2)
                        {
                            continue;
                        }
                        const coord_t width_at_closest
                            = interpolateWidth(closest_point, to_polygons[poly_index][to_index], to_polygons[poly_index][(to_index + 1) % to_polygons[poly_index].size()]);
                        const coord_t distance = vSize(closest_point - from_pos1) - from_width1 - width_at_closest;
                        if (distance < best_distance)
                        {
                            PolygonConnection<Polygonal> first_connection
                                = PolygonConnection<Polygonal>(&from_poly, from_index, from_pos1, &to_polygons[poly_index], to_index, closest_point);
                            std::optional<PolygonConnection<Polygonal>> second_connection = getSecondConnection(first_connection, (width_at_closest + from_width1) / 2);
                            if (second_connection)
                            {
                                best_distance = distance;
                                best_connection = first_connection;
                                best_second_connection = second_connection;
                            }
                        }
                    }
                    naive_dist = LinearAlg2D::getDistFromLine(to_pos1, from_pos1, from_pos2);
                    if (naive_dist - smallest_from_width - to_width1 < line_width_ * max_gap_)
                    {
                        const Point2LL closest_point = LinearAlg2D::getClosestOnLineSegment(to_pos1, from_pos1, from_pos2);
                        if (closest_point == from_pos2)
                        {
                            continue;
                        }
                        const coord_t width_at_closest = interpolateWidth(closest_point, from_poly[from_index], from_poly[(from_index + 1) % from_poly.size()]);
                        const coord_t distance = vSize(closest_point - to_pos1) - width_at_closest - to_width1;
                        if (distance < best_distance)
                        {
                            PolygonConnection<Polygonal> first_connection
                                = PolygonConnection<Polygonal>(&from_poly, from_index, closest_point, &to_polygons[poly_index], to_index, to_pos1);
                            std::optional<PolygonConnection<Polygonal>> second_connection = getSecondConnection(first_connection, (to_width1 + width_at_closest) / 2);
                            if (second_connection)
                            {
                                best_distance = distance;
                                best_connection = first_connection;
                                best_second_connection = second_connection;
                            }
                        }
                    }
                }
            }
        }
        if (best_connection)
        {
            return PolygonBridge<Polygonal>(*best_connection, *best_second_connection);
        }
        else
        {
            return std::nullopt;
        }
    }
//END
//= cura::PolygonConnector::getBridge
    template<typename Polygonal>
    std::optional<PolygonBridge<Polygonal>> getBridge(Polygonal& from_poly, std::vector<Polygonal>& to_polygons)
    {
        std::optional<PolygonBridge<Polygonal>> connection = findConnection(from_poly, to_polygons);
        if (! connection)
        {
            return std::nullopt;
        }
        if (LinearAlg2D::pointIsLeftOfLine(connection->b_.from_point_, connection->a_.from_point_, connection->a_.to_point_) > 0)
        {
            std::swap(connection->a_, connection->b_);
        }
        return connection;
    }
//END
    template<typename Polygonal>
    std::optional<std::pair<Point2LL, size_t>>
//= cura::PolygonConnector::walkUntilDistanceFromLine
        walkUntilDistanceFromLine(const Polygonal& poly, const size_t start_index, const coord_t distance, const Point2LL& line_a, const Point2LL& line_b, const short direction)
    {
        const size_t poly_size = poly.size();
        const coord_t line_magnitude = vSize(line_b - line_a);
        if (line_magnitude == 0)
        {
            return std::nullopt;
        }
        for (size_t index = (start_index + direction + poly_size) % poly_size; index != start_index; index = (index + direction + poly_size) % poly_size)
        {
            const Point2LL vertex_pos = getPosition(poly[index]);
            const coord_t vertex_distance = cross(line_a - line_b, line_a - vertex_pos) / line_magnitude;
            if (std::abs(vertex_distance) >= distance)
            {
                const size_t previous_index = (index - direction + poly_size) % poly_size;
                const Point2LL previous_pos = getPosition(poly[previous_index]);
                const coord_t previous_distance = cross(line_a - line_b, line_a - previous_pos) / line_magnitude;
                if (previous_distance == vertex_distance)
                {
                    continue;
                }
                const double interpolation_pos = double(distance - previous_distance) / (vertex_distance - previous_distance);
                const double interpolation_neg = double(-distance - previous_distance) / (vertex_distance - previous_distance);
                double interpolation;
                if (interpolation_pos >= 0 && interpolation_pos < 1)
                {
                    interpolation = interpolation_pos;
                }
                else if (interpolation_neg >= 0 && interpolation_neg < 1)
                {
                    interpolation = interpolation_neg;
                }
                else
                {
                    continue;
                }
                const Point2LL interpolated_point = previous_pos + (vertex_pos - previous_pos) * interpolation;
                return std::make_pair(interpolated_point, (direction == +1) ? previous_index : index);
            }
        }
        return std::nullopt;
    }
//END
//= cura::PolygonConnector::getSecondConnection
    template<typename Polygonal>
    std::optional<PolygonConnection<Polygonal>> getSecondConnection(PolygonConnection<Polygonal>& first, const coord_t adjacent_distance)
    {
        std::optional<PolygonConnection<Polygonal>> result = std::nullopt;
        coord_t best_connection_length = std::numeric_limits<coord_t>::max();
        std::optional<std::pair<Point2LL, size_t>> from_forward_intersection
            = walkUntilDistanceFromLine(*first.from_poly_, first.from_segment_, adjacent_distance, first.from_point_, first.to_point_, +1);
        std::optional<std::pair<Point2LL, size_t>> from_backward_intersection
            = walkUntilDistanceFromLine(*first.from_poly_, first.from_segment_, adjacent_distance, first.from_point_, first.to_point_, -1);
        std::optional<std::pair<Point2LL, size_t>> to_forward_intersection
            = walkUntilDistanceFromLine(*first.to_poly_, first.to_segment_, adjacent_distance, first.from_point_, first.to_point_, +1);
        std::optional<std::pair<Point2LL, size_t>> to_backward_intersection
            = walkUntilDistanceFromLine(*first.to_poly_, first.to_segment_, adjacent_distance, first.from_point_, first.to_point_, -1);
        for (const std::optional<std::pair<Point2LL, size_t>>& from_intersection : { from_forward_intersection, from_backward_intersection })
        {
            if (! from_intersection)
            {
                continue;
            }
            const bool original_side = LinearAlg2D::pointIsLeftOfLine(first.to_point_, first.from_point_, from_intersection->first) > 0;
            for (const std::optional<std::pair<Point2LL, size_t>>& to_intersection : { to_forward_intersection, to_backward_intersection })
            {
                if (! to_intersection)
                {
                    continue;
                }
                const bool current_side = LinearAlg2D::pointIsLeftOfLine(to_intersection->first, first.from_point_, from_intersection->first) > 0;
                if (original_side != current_side)
                {
                    continue;
                }
                PolygonConnection<Polygonal>
                    connection(first.from_poly_, from_intersection->second, from_intersection->first, first.to_poly_, to_intersection->second, to_intersection->first);
                const coord_t connection_length = getSpace(connection);
                if (connection_length < max_gap_ * line_width_ && connection_length < best_connection_length)
                {
                    result = connection;
                    best_connection_length = connection_length;
                }
            }
        }
        return result;
    }
//END
//= cura::PolygonConnector::connectPolygonsAlongBridge
    template<typename Polygonal>
    void connectPolygonsAlongBridge(const PolygonBridge<Polygonal>& bridge, Polygonal& result)
    {
        Polygonal ret = createEmpty<Polygonal>();
        const size_t from_size = bridge.b_.from_poly_->size();
        const coord_t b_from_width
            = interpolateWidth(bridge.b_.from_point_, (*bridge.b_.from_poly_)[bridge.b_.from_segment_], (*bridge.b_.from_poly_)[(bridge.b_.from_segment_ + 1) % from_size]);
        addVertex(ret, bridge.b_.from_point_, b_from_width);
        short forwards;
        if (bridge.a_.from_segment_ == bridge.b_.from_segment_)
        {
            const Point2LL vertex = getPosition((*bridge.b_.from_poly_)[bridge.b_.from_segment_]);
            const Point2LL next_vertex = getPosition((*bridge.b_.from_poly_)[(bridge.b_.from_segment_ + 1) % from_size]);
            const Point2LL direction = next_vertex - vertex;
            const Point2LL a_to_b = bridge.b_.from_point_ - bridge.a_.from_point_;
            forwards = vSize2(direction - a_to_b) < vSize2(-direction - a_to_b);
        }
        else
        {
            forwards
                = ((bridge.b_.from_segment_ + from_size - bridge.a_.from_segment_) % from_size) < ((bridge.a_.from_segment_ + from_size - bridge.b_.from_segment_) % from_size);
        }
        size_t first_segment = forwards ? (bridge.b_.from_segment_ + 1) % from_size : (bridge.b_.from_segment_ + from_size) % from_size;
        size_t last_segment = forwards ? bridge.a_.from_segment_ : bridge.a_.from_segment_;
        if (first_segment == last_segment)
            last_segment = (last_segment + from_size - 2 * forwards + 1) % from_size;
        size_t i = first_segment;
        do
        {
            addVertex(ret, (*bridge.b_.from_poly_)[i]);
            i = (i + 2 * forwards - 1 + from_size) % from_size;
        } while (i != (last_segment + from_size + 2 * forwards - 1) % from_size);
        const coord_t a_from_width
            = interpolateWidth(bridge.a_.from_point_, (*bridge.b_.from_poly_)[bridge.a_.from_segment_], (*bridge.b_.from_poly_)[(bridge.a_.from_segment_ + 1) % from_size]);
        addVertex(ret, bridge.a_.from_point_, a_from_width);
        const size_t to_size = bridge.b_.to_poly_->size();
        const coord_t a_to_width
            = interpolateWidth(bridge.a_.to_point_, (*bridge.a_.to_poly_)[bridge.a_.to_segment_], (*bridge.a_.to_poly_)[(bridge.a_.to_segment_ + 1) % to_size]);
        addVertex(ret, bridge.a_.to_point_, a_to_width);
        if (bridge.a_.to_segment_ == bridge.b_.to_segment_)
        {
            const Point2LL vertex = getPosition((*bridge.b_.to_poly_)[bridge.b_.to_segment_]);
            const Point2LL next_vertex = getPosition((*bridge.b_.to_poly_)[(bridge.b_.to_segment_ + 1) % to_size]);
            const Point2LL direction = next_vertex - vertex;
            const Point2LL a_to_b = bridge.b_.to_point_ - bridge.a_.to_point_;
            forwards = vSize2(direction - a_to_b) > vSize2(-direction - a_to_b);
        }
        else
        {
            forwards = ((bridge.a_.to_segment_ + to_size - bridge.b_.to_segment_) % to_size) < ((bridge.b_.to_segment_ + to_size - bridge.a_.to_segment_) % to_size);
        }
        first_segment = forwards ? (bridge.a_.to_segment_ + 1) % to_size : bridge.a_.to_segment_;
        size_t end_segment = forwards ? (bridge.b_.to_segment_ + 1) % to_size : bridge.b_.to_segment_;
        i = first_segment;
        do
        {
            addVertex(ret, (*bridge.b_.to_poly_)[i]);
            i = (i + 2 * forwards - 1 + to_size) % to_size;
        } while (i != end_segment);
        const coord_t b_to_width
            = interpolateWidth(bridge.b_.to_point_, (*bridge.b_.to_poly_)[bridge.b_.to_segment_], (*bridge.b_.to_poly_)[(bridge.b_.to_segment_ + 1) % to_size]);
        addVertex(ret, bridge.b_.to_point_, b_to_width);
        if (getPosition(ret.back()) != getPosition(ret.front()))
        {
            addVertex(ret, getPosition(ret.front()), getWidth(ret.front()));
        }
        result = std::move(ret);
    }
//END
};
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template long long cura::PolygonConnector::getSpace<cura::ExtrusionLine>(const cura::PolygonConnector::PolygonConnection<cura::ExtrusionLine> &) const;
//END
//= instance
template long long cura::PolygonConnector::getSpace<cura::Polygon>(const cura::PolygonConnector::PolygonConnection<cura::Polygon> &) const;
//END
//= instance
template std::optional<cura::PolygonConnector::PolygonBridge<cura::ExtrusionLine>> cura::PolygonConnector::findConnection<cura::ExtrusionLine>(cura::ExtrusionLine &, std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>> &);
//END
//= instance
template std::optional<cura::PolygonConnector::PolygonBridge<cura::ExtrusionLine>> cura::PolygonConnector::getBridge<cura::ExtrusionLine>(cura::ExtrusionLine &, std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>> &);
//END
//= instance
template std::optional<cura::PolygonConnector::PolygonBridge<cura::Polygon>> cura::PolygonConnector::findConnection<cura::Polygon>(cura::Polygon &, std::vector<cura::Polygon, std::allocator<cura::Polygon>> &);
//END
//= instance
template std::optional<cura::PolygonConnector::PolygonBridge<cura::Polygon>> cura::PolygonConnector::getBridge<cura::Polygon>(cura::Polygon &, std::vector<cura::Polygon, std::allocator<cura::Polygon>> &);
//END
//= instance
template std::optional<cura::PolygonConnector::PolygonConnection<cura::ExtrusionLine>> cura::PolygonConnector::getSecondConnection<cura::ExtrusionLine>(cura::PolygonConnector::PolygonConnection<cura::ExtrusionLine> &, const long long);
//END
//= instance
template std::optional<cura::PolygonConnector::PolygonConnection<cura::Polygon>> cura::PolygonConnector::getSecondConnection<cura::Polygon>(cura::PolygonConnector::PolygonConnection<cura::Polygon> &, const long long);
//END
//= instance
template std::optional<std::pair<ClipperLib::IntPoint, unsigned long>> cura::PolygonConnector::walkUntilDistanceFromLine<cura::ExtrusionLine>(const cura::ExtrusionLine &, const unsigned long, const long long, const ClipperLib::IntPoint &, const ClipperLib::IntPoint &, const short);
//END
//= instance
template std::optional<std::pair<ClipperLib::IntPoint, unsigned long>> cura::PolygonConnector::walkUntilDistanceFromLine<cura::Polygon>(const cura::Polygon &, const unsigned long, const long long, const ClipperLib::IntPoint &, const ClipperLib::IntPoint &, const short);
//END
//= instance
template std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>> cura::PolygonConnector::connectGroup<cura::ExtrusionLine>(std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>> &);
//END
//= instance
template std::vector<cura::Polygon, std::allocator<cura::Polygon>> cura::PolygonConnector::connectGroup<cura::Polygon>(std::vector<cura::Polygon, std::allocator<cura::Polygon>> &);
//END
//= instance
template struct cura::PolygonConnector::PolygonBridge<cura::ExtrusionLine>;
//END
//= instance
template struct cura::PolygonConnector::PolygonBridge<cura::Polygon>;
//END
//= instance
template void cura::PolygonConnector::connectPolygonsAlongBridge<cura::ExtrusionLine>(const cura::PolygonConnector::PolygonBridge<cura::ExtrusionLine> &, cura::ExtrusionLine &);
//END
//= instance
template void cura::PolygonConnector::connectPolygonsAlongBridge<cura::Polygon>(const cura::PolygonConnector::PolygonBridge<cura::Polygon> &, cura::Polygon &);
//END
