// What the functions of this unit compute.
#include "utils/scoring/PositionBasedScoringCriterion.h"
#include "geometry/PointsSet.h"
namespace cura
{
//= cura::PositionBasedScoringCriterion::PositionBasedScoringCriterion
PositionBasedScoringCriterion::PositionBasedScoringCriterion(const PointsSet& points)
    : points_(points)
{
}
//END
}
