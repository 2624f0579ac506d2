// What the functions of this unit compute.
#include "geometry/MixedLinesSet.h"
#include <numeric>
#include "geometry/ClosedLinesSet.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
namespace cura
{
//= cura::MixedLinesSet::intersection
MixedLinesSet MixedLinesSet::intersection(const Shape& shape) const
{
    if (empty() || shape.empty())
    {
        return {};
    }
    ClipperLib::PolyTree ret;
    ClipperLib::Clipper clipper(clipper_init);
    for (const PolylinePtr& line : (*this))
    {
        line->addPath(clipper, ClipperLib::ptSubject);
    }
    shape.addPaths(clipper, ClipperLib::ptClip);
    clipper.Execute(ClipperLib::ctIntersection, ret);
    return MixedLinesSet(std::move(ret));
}
//END
//= cura::MixedLinesSet::difference
MixedLinesSet MixedLinesSet::difference(const Shape& shape) const
{
    if (empty())
    {
        return {};
    }
    if (shape.empty())
    {
        return *this;
    }
    ClipperLib::PolyTree ret;
    ClipperLib::Clipper clipper(clipper_init);
    for (const PolylinePtr& line : (*this))
    {
        line->addPath(clipper, ClipperLib::ptSubject);
    }
    shape.addPaths(clipper, ClipperLib::ptClip);
    clipper.Execute(ClipperLib::ctDifference, ret);
    return MixedLinesSet(std::move(ret));
}
//END
//= cura::MixedLinesSet::push_back
void MixedLinesSet::push_back(const OpenPolyline& line)
{
    std::vector<PolylinePtr>::push_back(std::make_shared<OpenPolyline>(line));
}
//END
//= cura::MixedLinesSet::push_back
void MixedLinesSet::push_back(const ClosedPolyline& line)
{
    std::vector<PolylinePtr>::push_back(std::make_shared<ClosedPolyline>(line));
}
//END
//= cura::MixedLinesSet::push_back
void MixedLinesSet::push_back(OpenPolyline&& line)
{
    std::vector<PolylinePtr>::push_back(std::make_shared<OpenPolyline>(std::move(line)));
}
//END
//= cura::MixedLinesSet::push_back
void MixedLinesSet::push_back(ClosedPolyline&& line)
{
    std::vector<PolylinePtr>::push_back(std::make_shared<ClosedPolyline>(std::move(line)));
}
//END
//= cura::MixedLinesSet::push_back
void MixedLinesSet::push_back(const Polygon& line)
{
    std::vector<PolylinePtr>::push_back(std::make_shared<Polygon>(line));
}
//END
//= cura::MixedLinesSet::push_back
void MixedLinesSet::push_back(const std::shared_ptr<OpenPolyline>& line)
{
    std::vector<PolylinePtr>::push_back(line);
}
//END
//= cura::MixedLinesSet::push_back
void MixedLinesSet::push_back(const PolylinePtr& line)
{
    std::vector<PolylinePtr>::push_back(line);
}
//END
//= cura::MixedLinesSet::push_back
void MixedLinesSet::push_back(OpenLinesSet&& lines_set)
{
    reserve(size() + lines_set.size());
    for (OpenPolyline& line : lines_set)
    {
        push_back(std::move(line));
    }
}
//END
//= cura::MixedLinesSet::push_back
void MixedLinesSet::push_back(const OpenLinesSet& lines_set)
{
    reserve(size() + lines_set.size());
    for (const OpenPolyline& line : lines_set)
    {
        push_back(line);
    }
}
//END
//= cura::MixedLinesSet::push_back
void MixedLinesSet::push_back(ClosedLinesSet&& lines_set)
{
    reserve(size() + lines_set.size());
    for (ClosedPolyline& line : lines_set)
    {
        push_back(std::move(line));
    }
}
//END
//= cura::MixedLinesSet::push_back
void MixedLinesSet::push_back(const ClosedLinesSet& lines_set)
{
    reserve(size() + lines_set.size());
    for (const ClosedPolyline& line : lines_set)
    {
        push_back(line);
    }
}
//END
//= cura::MixedLinesSet::push_back
void MixedLinesSet::push_back(const MixedLinesSet& lines_set)
{
    insert(end(), lines_set.begin(), lines_set.end());
}
//END
//= cura::MixedLinesSet::push_back
void MixedLinesSet::push_back(MixedLinesSet&& lines_set)
{
    insert(end(), std::make_move_iterator(lines_set.begin()), std::make_move_iterator(lines_set.end()));
}
//END
//= cura::MixedLinesSet::push_back
void MixedLinesSet::push_back(const LinesSet<Polygon>& lines_set)
{
    reserve(size() + lines_set.size());
    for (const Polygon& line : lines_set)
    {
        push_back(line);
    }
}
//END
//= cura::MixedLinesSet::push_back
void MixedLinesSet::push_back(LinesSet<Polygon>&& lines_set)
{
    reserve(size() + lines_set.size());
    for (Polygon& line : lines_set)
    {
        push_back(std::move(line));
    }
}
//END
//= cura::MixedLinesSet::length
coord_t MixedLinesSet::length() const
{
    return std::accumulate(
        begin(),
        end(),
        0LL,
        [](coord_t value, const PolylinePtr& line)
        {
            return value + line->length();
        });
}
//END
}
