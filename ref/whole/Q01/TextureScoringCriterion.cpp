// What the functions of this unit compute.
#include "utils/scoring/TextureScoringCriterion.h"
#include <spdlog/spdlog.h>
#include "TextureDataProvider.h"
namespace cura
{
//= cura::TextureScoringCriterion::TextureScoringCriterion
TextureScoringCriterion::TextureScoringCriterion(const PointsSet& points, const std::shared_ptr<TextureDataProvider>& texture_data_provider, const std::string& feature_name)
    : PositionBasedScoringCriterion(points)
    , texture_data_provider_(texture_data_provider)
    , feature_name_(feature_name)
{
}
//END
}
