// What the functions of this unit compute.
#include "geometry/ClosedPolyline.h"
#include <range/v3/algorithm/all_of.hpp>
#include <range/v3/algorithm/rotate.hpp>
#include "geometry/OpenPolyline.h"
namespace cura
{
//= cura::ClosedPolyline::shiftVerticesToStartPoint
void ClosedPolyline::shiftVerticesToStartPoint(const size_t start_index)
{
    if (! isValid() || start_index == 0 || start_index >= size())
    {
        return;
    }
    if (explicitly_closed_)
    {
        getPoints().erase(getPoints().end() - 1);
    }
    ranges::rotate(getPoints(), getPoints().begin() + start_index);
    if (explicitly_closed_)
    {
        insert(end(), getPoints().front());
    }
}
//END
}
