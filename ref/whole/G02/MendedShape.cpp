// What the functions of this unit compute.
#include "geometry/MendedShape.h"
#include "utils/Simplify.h"
#include "utils/actions/smooth.h"
#include "utils/polygonUtils.h"
using namespace cura;
//= cura::MendedShape::getShape
const Shape& MendedShape::getShape() const
{
    if (! mended_shape_.has_value())
    {
        Shape mended_shape;
        if (settings_ != nullptr && shape_ != nullptr)
        {
            const coord_t allowed_distance = settings_->get<coord_t>("meshfix_maximum_deviation");
            const coord_t open_close_distance
                = settings_->get<bool>("fill_outline_gaps") ? settings_->get<coord_t>("min_feature_size") / 2 - 5 : settings_->get<coord_t>("min_wall_line_width") / 2 - 5;
            const coord_t epsilon_offset = (allowed_distance / 2) - 1;
            const double small_area_length = settings_->get<double>("wall_line_width_0") / 2.0;
            mended_shape = shape_->offset(-open_close_distance).offset(open_close_distance * 2).offset(-open_close_distance);
            mended_shape.removeSmallAreas(small_area_length * small_area_length, false);
            mended_shape = Simplify(*settings_).polygon(mended_shape);
            if (settings_->get<bool>("meshfix_fluid_motion_enabled") && section_type_ != SectionType::SUPPORT)
            {
                auto smoother = actions::smooth(*settings_);
                for (Polygon& polygon : mended_shape)
                {
                    polygon.setPoints(smoother(polygon.getPoints()));
                }
            }
            PolygonUtils::fixSelfIntersections(epsilon_offset, mended_shape);
            mended_shape.removeDegenerateVerts();
            mended_shape.removeColinearEdges(AngleRadians(0.005));
            PolygonUtils::fixSelfIntersections(epsilon_offset, mended_shape);
            mended_shape.removeDegenerateVerts();
            mended_shape = mended_shape.unionPolygons();
            mended_shape = Simplify(*settings_).polygon(mended_shape).removeNearSelfIntersections();
        }
        const_cast<MendedShape*>(this)->mended_shape_ = mended_shape;
    }
    return *mended_shape_;
}
//END
