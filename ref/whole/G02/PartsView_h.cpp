// What the functions of this unit compute.
#ifndef GEOMETRY_PARTS_VIEW_H
#define GEOMETRY_PARTS_VIEW_H
#include <vector>
namespace cura
{
class Shape;
class SingleShape;
class PartsView : public std::vector<std::vector<size_t>>
{
public:
    Shape& polygons_;
    PartsView() = delete;
//= cura::PartsView::PartsView
    explicit PartsView(Shape& polygons)
        : polygons_{ polygons }
    {
    }
//END
    PartsView(PartsView&& parts_view) = default;
    PartsView(const PartsView& parts_view) = default;
    ~PartsView() = default;
    PartsView& operator=(PartsView&& parts_view) = delete;
    PartsView& operator=(const PartsView& parts_view) = delete;
    size_t getPartContaining(size_t poly_idx, size_t* boundary_poly_idx = nullptr) const;
    SingleShape assemblePartContaining(size_t poly_idx, size_t* boundary_poly_idx = nullptr) const;
    [[nodiscard]] SingleShape assemblePart(size_t part_idx) const;
};
}
#endif
