// What the functions of this unit compute.
#ifndef INFILL_NO_ZIGZAG_CONNECTOR_PROCESSOR_H
#define INFILL_NO_ZIGZAG_CONNECTOR_PROCESSOR_H
#include "infill/ZigzagConnectorProcessor.h"
namespace cura
{
class OpenPolyline;
template<class T>
class LinesSet;
class NoZigZagConnectorProcessor : public ZigzagConnectorProcessor
{
public:
//= cura::NoZigZagConnectorProcessor::NoZigZagConnectorProcessor
    NoZigZagConnectorProcessor(const PointMatrix& rotation_matrix, OpenLinesSet& result)
        : ZigzagConnectorProcessor(
              rotation_matrix,
              result,
              false,
              false,
              false,
              0)
    {
    }
//END
    void registerVertex(const Point2LL& vertex);
    void registerScanlineSegmentIntersection(const Point2LL& intersection, int scanline_index, coord_t min_distance_to_scanline);
    void registerPolyFinished();
};
}
#endif
