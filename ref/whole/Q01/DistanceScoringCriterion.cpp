// What the functions of this unit compute.
#include "utils/scoring/DistanceScoringCriterion.h"
#include "geometry/PointsSet.h"
namespace cura
{
//= cura::DistanceScoringCriterion::DistanceScoringCriterion
DistanceScoringCriterion::DistanceScoringCriterion(const PointsSet& points, const Point2LL& target_pos, DistanceType distance_type, const double distance_divider)
    : PositionBasedScoringCriterion(points)
    , target_pos_(target_pos)
    , distance_type_(distance_type)
    , distance_divider_(distance_divider)
{
}
//END
}
