// What the functions of this unit compute.
#include "utils/PolygonsSegmentIndex.h"
namespace cura
{
//= cura::PolygonsSegmentIndex::from
Point2LL PolygonsSegmentIndex::from() const
{
    return PolygonsPointIndex::p();
}
//END
//= cura::PolygonsSegmentIndex::to
Point2LL PolygonsSegmentIndex::to() const
{
    return PolygonsSegmentIndex::next().p();
}
//END
}
