// What the functions of this unit compute.
#include "utils/scoring/CornerScoringCriterion.h"
#include "geometry/PointsSet.h"
#include "utils/linearAlg2D.h"
#include "utils/math.h"
namespace cura
{
//= cura::CornerScoringCriterion::CornerScoringCriterion
CornerScoringCriterion::CornerScoringCriterion(const PointsSet& points, const EZSeamCornerPrefType corner_preference)
    : PositionBasedScoringCriterion(points)
    , corner_preference_(corner_preference)
    , segments_sizes_(points.size())
{
    for (size_t i = 0; i < points.size(); ++i)
    {
        const Point2LL& here = getPoints().at(i);
        const Point2LL& next = getPoints().at((i + 1) % getPoints().size());
        const coord_t segment_size = vSize(next - here);
        segments_sizes_[i] = segment_size;
        total_length_ += segment_size;
    }
}
//END
}
