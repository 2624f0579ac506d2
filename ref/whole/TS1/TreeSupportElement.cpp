// What the functions of this unit compute.
#include "TreeSupportElement.h"
#include "utils/OBJ.h"
namespace cura
{
//= cura::TreeSupportElement::TreeSupportElement
TreeSupportElement::TreeSupportElement(
    coord_t distance_to_top,
    size_t target_height,
    Point2LL target_position,
    bool to_buildplate,
    bool to_model_gracious,
    bool use_min_xy_dist,
    size_t dont_move_until,
    bool supports_roof,
    bool can_use_safe_radius,
    bool force_tips_to_roof,
    bool skip_ovalisation,
    bool influence_area_limit_active,
    coord_t influence_area_limit_range)
    : target_height_(target_height)
    , target_position_(target_position)
    , next_position_(target_position)
    , next_height_(target_height)
    , effective_radius_height_(distance_to_top)
    , to_buildplate_(to_buildplate)
    , distance_to_top_(distance_to_top)
    , area_(nullptr)
    , result_on_layer_(target_position)
    , increased_to_model_radius_(0)
    , to_model_gracious_(to_model_gracious)
    , buildplate_radius_increases_(0)
    , use_min_xy_dist_(use_min_xy_dist)
    , supports_roof_(supports_roof)
    , dont_move_until_(dont_move_until)
    , can_use_safe_radius_(can_use_safe_radius)
    , last_area_increase_(AreaIncreaseSettings(AvoidanceType::FAST, 0, false, false, false, false))
    , missing_roof_layers_(force_tips_to_roof ? dont_move_until : 0)
    , skip_ovalisation_(skip_ovalisation)
    , all_tips_({ target_position })
    , influence_area_limit_active_(influence_area_limit_active)
    , influence_area_limit_range_(influence_area_limit_range)
{
    RecreateInfluenceLimitArea();
}
//END
//= cura::TreeSupportElement::setToBuildplateForAllParents
void TreeSupportElement::setToBuildplateForAllParents(bool new_value)
{
    to_buildplate_ = new_value;
    to_model_gracious_ |= new_value;
    std::vector<TreeSupportElement*> grandparents{ parents_ };
    while (! grandparents.empty())
    {
        std::vector<TreeSupportElement*> next_parents;
        for (TreeSupportElement* grandparent : grandparents)
        {
            next_parents.insert(next_parents.end(), grandparent->parents_.begin(), grandparent->parents_.end());
            grandparent->to_buildplate_ = new_value;
            grandparent->to_model_gracious_ |= new_value;
        }
        grandparents = next_parents;
    }
}
//END
}
