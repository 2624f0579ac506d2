// What the functions of this unit compute.
#ifndef GEOMETRY_CLOSED_POLYLINE_H
#define GEOMETRY_CLOSED_POLYLINE_H
#include "geometry/Polyline.h"
namespace cura
{
class OpenPolyline;
class MixedLinesSet;
class Shape;
class ClosedPolyline : public Polyline
{
private:
    bool explicitly_closed_{ false };
public:
    ClosedPolyline() = default;
    explicit ClosedPolyline(const bool explicitly_closed)
        : explicitly_closed_{ explicitly_closed }
    {
    }
    ClosedPolyline(const ClosedPolyline& other) = default;
//= cura::ClosedPolyline::ClosedPolyline
    ClosedPolyline(ClosedPolyline&& other) noexcept
        : Polyline{ std::move(other) }
        , explicitly_closed_(other.explicitly_closed_)
    {
    }
//END
//= cura::ClosedPolyline::ClosedPolyline
    ClosedPolyline(const std::initializer_list<Point2LL>& initializer, bool explicitly_closed)
        : Polyline{ initializer }
        , explicitly_closed_{ explicitly_closed }
    {
    }
//END
//= cura::ClosedPolyline::ClosedPolyline
    explicit ClosedPolyline(const ClipperLib::Path& points, bool explicitly_closed)
        : Polyline{ points }
        , explicitly_closed_{ explicitly_closed }
    {
    }
//END
//= cura::ClosedPolyline::ClosedPolyline
    explicit ClosedPolyline(ClipperLib::Path&& points, bool explicitly_closed)
        : Polyline{ std::move(points) }
        , explicitly_closed_{ explicitly_closed }
    {
    }
//END
    ~ClosedPolyline() override = default;
    [[nodiscard]] bool hasClosingSegment() const override
    {
        return ! explicitly_closed_;
    }
    [[nodiscard]] size_t segmentsCount() const override;
    [[nodiscard]] bool isValid() const override;
    void addPath(ClipperLib::Clipper& clipper, ClipperLib::PolyType poly_typ) const override;
    ClosedPolyline& operator=(const ClosedPolyline& other) = default;
    ClosedPolyline& operator=(ClosedPolyline&& other) = default;
    [[nodiscard]] bool isExplicitlyClosed() const
    {
        return explicitly_closed_;
    }
    void setExplicitlyClosed(bool explicitly_closed)
    {
        explicitly_closed_ = explicitly_closed;
    }
    [[nodiscard]] bool inside(const Point2LL& p, bool border_result = false) const;
    [[nodiscard]] bool inside(const ClipperLib::Path& polygon) const;
    [[nodiscard]] OpenPolyline toPseudoOpenPolyline() const;
    void shiftVerticesToStartPoint(const size_t start_index);
};
}
#endif
