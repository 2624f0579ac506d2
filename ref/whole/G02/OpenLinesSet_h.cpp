// What the functions of this unit compute.
#ifndef GEOMETRY_OPEN_LINES_SET_H
#define GEOMETRY_OPEN_LINES_SET_H
#include "geometry/LinesSet.h"
#include "geometry/OpenPolyline.h"
namespace cura
{
class OpenLinesSet : public LinesSet<OpenPolyline>
{
public:
    OpenLinesSet() = default;
//= cura::OpenLinesSet::OpenLinesSet
    OpenLinesSet(LinesSet<OpenPolyline>&& other)
        : LinesSet(std::move(other))
    {
    }
//END
//= cura::OpenLinesSet::OpenLinesSet
    explicit OpenLinesSet(const std::initializer_list<OpenPolyline>& initializer)
        : LinesSet(initializer)
    {
    }
//END
//= cura::OpenLinesSet::OpenLinesSet
    explicit OpenLinesSet(const OpenPolyline& line)
        : LinesSet(line)
    {
    }
//END
    explicit OpenLinesSet(ClipperLib::Paths&& paths);
    void addSegment(const Point2LL& from, const Point2LL& to);
    void split(const size_t line_index, const size_t point_index);
    [[nodiscard]] OpenLinesSet difference(const Shape& other) const;
};
}
#endif
