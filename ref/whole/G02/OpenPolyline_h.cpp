// What the functions of this unit compute.
#ifndef GEOMETRY_OPEN_POLYLINE_H
#define GEOMETRY_OPEN_POLYLINE_H
#include "geometry/Polyline.h"
namespace cura
{
class OpenPolyline : public Polyline
{
public:
    OpenPolyline() = default;
    OpenPolyline(const OpenPolyline& other) = default;
    OpenPolyline(OpenPolyline&& other) = default;
//= cura::OpenPolyline::OpenPolyline
    OpenPolyline(const std::initializer_list<Point2LL>& initializer)
        : Polyline{ initializer }
    {
    }
//END
//= cura::OpenPolyline::OpenPolyline
    explicit OpenPolyline(const ClipperLib::Path& points)
        : Polyline{ points }
    {
    }
//END
//= cura::OpenPolyline::OpenPolyline
    explicit OpenPolyline(ClipperLib::Path&& points)
        : Polyline{ std::move(points) }
    {
    }
//END
    ~OpenPolyline() override = default;
    [[nodiscard]] bool hasClosingSegment() const override
    {
        return false;
    }
    [[nodiscard]] size_t segmentsCount() const override
    {
        return size() > 1 ? size() - 1 : 0;
    }
    [[nodiscard]] bool isValid() const override
    {
        return size() >= 2;
    }
    void addPath(ClipperLib::Clipper& clipper, ClipperLib::PolyType poly_typ) const final
    {
        clipper.AddPath(getPoints(), poly_typ, false);
    }
    OpenPolyline& operator=(OpenPolyline&& other) noexcept = default;
    OpenPolyline& operator=(const OpenPolyline& other) = default;
};
}
#endif
