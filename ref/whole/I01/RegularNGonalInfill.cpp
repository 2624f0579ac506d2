// What the functions of this unit compute.
#include "infill/RegularNGonalInfill.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/Shape.h"
#include "geometry/conversions/Point2D_Point2LL.h"
#include "utils/AABB.h"
namespace cura
{
std::array<RegularNGonalInfill::SegmentsPattern, 2>
//= cura::RegularNGonalInfill::generatePatterns
    RegularNGonalInfill::generatePatterns(const double segment_up_length, const double segment_right_x, const double segment_right_y, const coord_t absolute_delta_x)
{
    const Point2LL segment_up = toPoint2LL(Point2D(0, segment_up_length));
    const Point2LL segment_right = toPoint2LL(Point2D(segment_right_x, segment_right_y));
    const Point2LL segment_left(-segment_right.X, segment_right.Y);
    return { SegmentsPattern{ .segments = { segment_up, segment_left, segment_up, segment_right }, .delta_x = -absolute_delta_x },
             SegmentsPattern{ .segments = { segment_up, segment_right, segment_up, segment_left }, .delta_x = absolute_delta_x } };
}
//END
}
