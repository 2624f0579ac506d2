// What the functions of this unit compute.
#include "utils/scoring/ExclusionAreaScoringCriterion.h"
#include "geometry/Shape.h"
namespace cura
{
//= cura::ExclusionAreaScoringCriterion::ExclusionAreaScoringCriterion
ExclusionAreaScoringCriterion::ExclusionAreaScoringCriterion(const PointsSet& points, const Shape& exclusion_area)
    : PositionBasedScoringCriterion(points)
    , exclusion_area_(exclusion_area)
{
}
//END
}
