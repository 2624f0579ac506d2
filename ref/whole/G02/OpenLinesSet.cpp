// What the functions of this unit compute.
#include "geometry/OpenLinesSet.h"
#include "geometry/Shape.h"
namespace cura
{
//= cura::OpenLinesSet::OpenLinesSet
OpenLinesSet::OpenLinesSet(ClipperLib::Paths&& paths)
{
    reserve(paths.size());
    for (ClipperLib::Path& path : paths)
    {
        emplace_back(std::move(path));
    }
}
//END
//= cura::OpenLinesSet::addSegment
void OpenLinesSet::addSegment(const Point2LL& from, const Point2LL& to)
{
    emplace_back(std::initializer_list<Point2LL>{ from, to });
}
//END
}
