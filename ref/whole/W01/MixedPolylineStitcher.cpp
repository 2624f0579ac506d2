// What the functions of this unit compute.
#include "utils/MixedPolylineStitcher.h"
#include "geometry/ClosedLinesSet.h"
#include "geometry/MixedLinesSet.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
namespace cura
{
//= cura::MixedPolylineStitcher::stitch
void MixedPolylineStitcher::stitch(const OpenLinesSet& lines, MixedLinesSet& result, coord_t max_stitch_distance, coord_t snap_distance)
{
    OpenLinesSet open_lines;
    ClosedLinesSet closed_lines;
    PolylineStitcher::stitch(lines, open_lines, closed_lines, max_stitch_distance, snap_distance);
    result.push_back(std::move(open_lines));
    for (ClosedPolyline& closed_line : closed_lines)
    {
        closed_line.setExplicitlyClosed(true);
    }
    result.push_back(std::move(closed_lines));
}
//END
}
