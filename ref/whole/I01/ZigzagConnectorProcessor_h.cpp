// What the functions of this unit compute.
#ifndef INFILL_ZIGZAG_CONNECTOR_PROCESSOR_H
#define INFILL_ZIGZAG_CONNECTOR_PROCESSOR_H
#include <vector>
#include "geometry/Point2LL.h"
namespace cura
{
class OpenLinesSet;
class OpenPolyline;
class PointMatrix;
class Polygon;
class Shape;
class ZigzagConnectorProcessor
{
public:
//= cura::ZigzagConnectorProcessor::ZigzagConnectorProcessor
    ZigzagConnectorProcessor(const PointMatrix& rotation_matrix, OpenLinesSet& result, bool use_endpieces, bool connected_endpieces, bool skip_some_zags, int zag_skip_count)
        : rotation_matrix_(rotation_matrix)
        , result_(result)
        , use_endpieces_(use_endpieces)
        , connected_endpieces_(connected_endpieces)
        , skip_some_zags_(skip_some_zags)
        , zag_skip_count_(zag_skip_count)
        , is_first_connector_(true)
        , first_connector_end_scanline_index_(0)
        , last_connector_index_(0)
    {
    }
//END
    virtual ~ZigzagConnectorProcessor()
    {
    }
    virtual void registerVertex(const Point2LL& vertex);
    virtual void registerScanlineSegmentIntersection(const Point2LL& intersection, int scanline_index, coord_t min_distance_to_scanline);
    virtual void registerPolyFinished();
protected:
    void reset();
    void addPolyline(const OpenPolyline& polyline);
    bool shouldAddCurrentConnector(int start_scanline_idx, int end_scanline_idx) const;
    void addZagConnector(std::vector<Point2LL>& points, bool is_endpiece);
    bool handleConnectorTooCloseToSegment(const coord_t scanline_x, const coord_t min_distance_to_scanline);
protected:
    const PointMatrix& rotation_matrix_;
    OpenLinesSet& result_;
    const bool use_endpieces_;
    const bool connected_endpieces_;
    const int skip_some_zags_;
    const int zag_skip_count_;
    bool is_first_connector_;
    int first_connector_end_scanline_index_;
    int last_connector_index_;
    std::vector<Point2LL> first_connector_;
    std::vector<Point2LL> current_connector_;
};
}
#endif
