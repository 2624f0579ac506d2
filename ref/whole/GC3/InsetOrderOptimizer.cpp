// What the functions of this unit compute.
#include "InsetOrderOptimizer.h"
#include <functional>
#include <tuple>
#include <range/v3/algorithm/max.hpp>
#include <range/v3/algorithm/stable_sort.hpp>
#include <range/v3/range/conversion.hpp>
#include <range/v3/view/addressof.hpp>
#include <range/v3/view/any_view.hpp>
#include <range/v3/view/drop.hpp>
#include <range/v3/view/drop_last.hpp>
#include <range/v3/view/filter.hpp>
#include <range/v3/view/join.hpp>
#include <range/v3/view/remove_if.hpp>
#include <range/v3/view/reverse.hpp>
#include <range/v3/view/take_exactly.hpp>
#include <range/v3/view/transform.hpp>
#include "ExtruderTrain.h"
#include "FffGcodeWriter.h"
#include "ForceRetract.h"
#include "LayerPlan.h"
#include "utils/views/convert.h"
#include "utils/views/dfs.h"
namespace rg = ranges;
namespace rv = ranges::views;
namespace cura
{
//= cura::InsetOrderOptimizer::InsetOrderOptimizer
InsetOrderOptimizer::InsetOrderOptimizer(
    const SliceDataStorage& storage,
    LayerPlan& gcode_layer,
    const Settings& settings,
    const int extruder_nr,
    const GCodePathConfig& inset_0_default_config,
    const GCodePathConfig& inset_X_default_config,
    const GCodePathConfig& inset_0_roofing_config,
    const GCodePathConfig& inset_X_roofing_config,
    const GCodePathConfig& inset_0_flooring_config,
    const GCodePathConfig& inset_X_flooring_config,
    const GCodePathConfig& inset_0_bridge_config,
    const GCodePathConfig& inset_X_bridge_config,
    const coord_t wall_0_wipe_dist,
    const coord_t wall_x_wipe_dist,
    const size_t wall_0_extruder_nr,
    const size_t wall_x_extruder_nr,
    const ZSeamConfig& z_seam_config,
    const std::vector<VariableWidthLines>& paths,
    const Point2LL& model_center_point,
    const Shape& disallowed_areas_for_seams,
    const bool scarf_seam,
    const bool smooth_speed,
    const Shape& overhang_areas,
    const std::shared_ptr<TextureDataProvider>& texture_data_provider,
    const bool start_width_longest_wall)
    : storage_(storage)
    , gcode_layer_(gcode_layer)
    , settings_(settings)
    , extruder_nr_(extruder_nr)
    , inset_0_default_config_(inset_0_default_config)
    , inset_X_default_config_(inset_X_default_config)
    , inset_0_roofing_config_(inset_0_roofing_config)
    , inset_X_roofing_config_(inset_X_roofing_config)
    , inset_0_flooring_config_(inset_0_flooring_config)
    , inset_X_flooring_config_(inset_X_flooring_config)
    , inset_0_bridge_config_(inset_0_bridge_config)
    , inset_X_bridge_config_(inset_X_bridge_config)
    , wall_0_wipe_dist_(wall_0_wipe_dist)
    , wall_x_wipe_dist_(wall_x_wipe_dist)
    , wall_0_extruder_nr_(wall_0_extruder_nr)
    , wall_x_extruder_nr_(wall_x_extruder_nr)
    , z_seam_config_(z_seam_config)
    , paths_(paths)
    , layer_nr_(gcode_layer.getLayerNr())
    , model_center_point_(model_center_point)
    , disallowed_areas_for_seams_{ disallowed_areas_for_seams }
    , scarf_seam_(scarf_seam)
    , smooth_speed_(smooth_speed)
    , overhang_areas_(overhang_areas)
    , texture_data_provider_(texture_data_provider)
    , start_width_longest_wall_(start_width_longest_wall)
{
}
//END
//= cura::InsetOrderOptimizer::optimize
void InsetOrderOptimizer::optimize()
{
    const auto pack_by_inset = ! settings_.get<bool>("optimize_wall_printing_order");
    const auto inset_direction = settings_.get<InsetDirection>((layer_nr_ == 0) ? "initial_layer_inset_direction" : "inset_direction");
    const bool outer_to_inner = inset_direction == InsetDirection::OUTSIDE_IN;
    const bool use_one_extruder = wall_0_extruder_nr_ == wall_x_extruder_nr_;
    const bool current_extruder_is_wall_x = wall_x_extruder_nr_ == extruder_nr_;
    const bool reverse = shouldReversePath(use_one_extruder, current_extruder_is_wall_x, outer_to_inner);
    const bool use_shortest_for_inner_walls = outer_to_inner;
    walls_to_be_added_ = getWallsToBeAdded(reverse, use_one_extruder);
    const std::unordered_multimap<const ExtrusionLine*, const ExtrusionLine*> order
        = pack_by_inset ? getInsetOrder(walls_to_be_added_, outer_to_inner) : getRegionOrder(walls_to_be_added_, outer_to_inner);
    constexpr bool detect_loops = false;
    constexpr Shape* combing_boundary = nullptr;
    const auto group_outer_walls = settings_.get<bool>("group_outer_walls");
    path_optimizer_ = std::make_shared<PathOrderOptimizer<const ExtrusionLine*>>(
        gcode_layer_.getLastPlannedPositionOrStartingPosition(),
        z_seam_config_,
        detect_loops,
        combing_boundary,
        reverse,
        order,
        group_outer_walls,
        disallowed_areas_for_seams_,
        use_shortest_for_inner_walls,
        overhang_areas_,
        texture_data_provider_,
        start_width_longest_wall_);
    for (auto& line : walls_to_be_added_)
    {
        if (line.is_closed_)
        {
            std::optional<size_t> force_start;
            if (! settings_.get<bool>("z_seam_on_vertex"))
            {
                force_start = insertSeamPoint(line);
            }
            path_optimizer_->addPolygon(&line, force_start, line.is_outer_wall());
        }
        else
        {
            path_optimizer_->addPolyline(&line);
        }
    }
    path_optimizer_->optimize();
}
//END
//= cura::InsetOrderOptimizer::getInsetOrder
InsetOrderOptimizer::value_type InsetOrderOptimizer::getInsetOrder(const auto& input, const bool outer_to_inner)
{
    value_type order;
    std::vector<std::vector<const ExtrusionLine*>> walls_by_inset;
    std::vector<std::vector<const ExtrusionLine*>> fillers_by_inset;
    for (const auto& line : input)
    {
        if (line.is_odd_)
        {
            if (line.inset_idx_ >= fillers_by_inset.size())
            {
                fillers_by_inset.resize(line.inset_idx_ + 1);
            }
            fillers_by_inset[line.inset_idx_].emplace_back(&line);
        }
        else
        {
            if (line.inset_idx_ >= walls_by_inset.size())
            {
                walls_by_inset.resize(line.inset_idx_ + 1);
            }
            walls_by_inset[line.inset_idx_].emplace_back(&line);
        }
    }
    for (size_t inset_idx = 0; inset_idx + 1 < walls_by_inset.size(); inset_idx++)
    {
        for (const ExtrusionLine* line : walls_by_inset[inset_idx])
        {
            for (const ExtrusionLine* inner_line : walls_by_inset[inset_idx + 1])
            {
                const ExtrusionLine* before = inner_line;
                const ExtrusionLine* after = line;
                if (outer_to_inner)
                {
                    std::swap(before, after);
                }
                order.emplace(before, after);
            }
        }
    }
    for (size_t inset_idx = 1; inset_idx < fillers_by_inset.size(); inset_idx++)
    {
        for (const ExtrusionLine* line : fillers_by_inset[inset_idx])
        {
            if (inset_idx - 1 >= walls_by_inset.size())
                continue;
            for (const ExtrusionLine* enclosing_wall : walls_by_inset[inset_idx - 1])
            {
                order.emplace(enclosing_wall, line);
            }
        }
    }
    return order;
}
//END
//= cura::InsetOrderOptimizer::getWallsToBeAdded
std::vector<ExtrusionLine> InsetOrderOptimizer::getWallsToBeAdded(const bool reverse, const bool use_one_extruder)
{
    if (paths_.empty())
    {
        return {};
    }
    rg::any_view<VariableWidthLines> view;
    if (reverse)
    {
        if (use_one_extruder)
        {
            view = paths_ | rv::reverse;
        }
        else
        {
            view = paths_ | rv::reverse | rv::drop_last(1);
        }
    }
    else
    {
        if (use_one_extruder)
        {
            view = paths_ | rv::all;
        }
        else
        {
            view = paths_ | rv::take_exactly(1);
        }
    }
    return view | rv::join | rv::remove_if(rg::empty) | rg::to_vector;
}
//END
}
