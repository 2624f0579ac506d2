// What the functions of this unit compute.
#ifndef GEOMETRY_CLOSED_LINES_SET_H
#define GEOMETRY_CLOSED_LINES_SET_H
#include "geometry/ClosedPolyline.h"
#include "geometry/LinesSet.h"
namespace cura
{
class MixedLinesSet;
class ClosedLinesSet : public LinesSet<ClosedPolyline>
{
public:
    ClosedLinesSet() = default;
//= cura::ClosedLinesSet::ClosedLinesSet
    ClosedLinesSet(LinesSet<ClosedPolyline>&& other)
        : LinesSet(std::move(other))
    {
    }
//END
//= cura::ClosedLinesSet::ClosedLinesSet
    explicit ClosedLinesSet(const std::initializer_list<ClosedPolyline>& initializer)
        : LinesSet(initializer)
    {
    }
//END
//= cura::ClosedLinesSet::ClosedLinesSet
    explicit ClosedLinesSet(const ClosedPolyline& line)
        : LinesSet(line)
    {
    }
//END
    [[nodiscard]] MixedLinesSet intersection(const Shape& shape) const;
    [[nodiscard]] MixedLinesSet difference(const Shape& shape) const;
};
}
#endif
