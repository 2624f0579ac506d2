// What the functions of this unit compute.
#include "InfillOrderOptimizer.h"
#include <range/v3/algorithm/all_of.hpp>
#include <range/v3/algorithm/any_of.hpp>
#include <range/v3/algorithm/find_if.hpp>
#include <range/v3/algorithm/sort.hpp>
#include "LayerPlan.h"
#include "geometry/OpenLinesSet.h"
namespace cura
{
//= cura::InfillOrderOptimizer::optimize
void InfillOrderOptimizer::optimize(const bool skin_support_interlace_lines, const std::optional<Point2LL>& near_end_location)
{
    if (infill_parts_.empty())
    {
        return;
    }
    ranges::sort(infill_parts_, &InfillOrderOptimizer::shouldPrintBefore);
    if (! near_end_location.has_value())
    {
        return;
    }
    auto closest_infill_part_iterator = infill_parts_.end();
    std::optional<std::pair<size_t, size_t>> closest_line_point;
    coord_t closest_distance_squared;
    const auto walls_iterator = ranges::find_if(
        infill_parts_,
        [](const InfillPart& infill_part)
        {
            return infill_part.area == InfillPartArea::Infill && infill_part.type == InfillPartType::ExtrusionLines;
        });
    if (walls_iterator != infill_parts_.end())
    {
        closest_infill_part_iterator = walls_iterator;
    }
    else if (infill_parts_.size() > 1)
    {
        for (auto iterator = infill_parts_.begin(); iterator != infill_parts_.end(); ++iterator)
        {
            InfillPart& infill_part = *iterator;
            switch (infill_part.type)
            {
            case InfillPartType::Lines:
                if (skin_support_interlace_lines && infill_part.area == InfillPartArea::SkinSupport)
                {
                    break;
                }
                if (isCloserTo(*infill_part.paths.lines, *near_end_location, closest_line_point, closest_distance_squared))
                {
                    closest_infill_part_iterator = iterator;
                }
                break;
            case InfillPartType::Polygons:
                if (isCloserTo(*infill_part.paths.polygons, *near_end_location, closest_line_point, closest_distance_squared))
                {
                    closest_infill_part_iterator = iterator;
                }
                break;
            case InfillPartType::ExtrusionLines:
                assert(false && "We should never have extrusion lines at this points because having walls is filtered out above");
                break;
            }
        }
    }
    if (closest_infill_part_iterator != infill_parts_.end() && closest_infill_part_iterator != std::prev(infill_parts_.end()))
    {
        InfillPart closest_infill_part = *closest_infill_part_iterator;
        infill_parts_.erase(closest_infill_part_iterator);
        infill_parts_.push_back(closest_infill_part);
    }
    InfillPart& last_part = infill_parts_.back();
    if (last_part.type == InfillPartType::Lines && last_part.area == InfillPartArea::Infill)
    {
        if (! closest_line_point.has_value())
        {
            isCloserTo(*last_part.paths.lines, *near_end_location, closest_line_point, closest_distance_squared);
        }
        if (closest_line_point.has_value())
        {
            last_part.paths.lines->split(closest_line_point->first, closest_line_point->second);
        }
    }
}
//END
template<class LinesSetType>
bool InfillOrderOptimizer::isCloserTo(
    const LinesSetType& line_set,
    const Point2LL& location,
    std::optional<std::pair<size_t, size_t>>& closest_point,
    coord_t& closest_distance_squared)
{
    bool closer_found = false;
    for (const auto& [line_index, line] : line_set | ranges::views::enumerate)
    {
        for (const auto& [point_index, point] : line | ranges::views::enumerate)
        {
            const coord_t distance_squared = vSize2(point - location);
            if (! closest_point.has_value() || distance_squared < closest_distance_squared)
            {
                closer_found = true;
                closest_point = std::make_optional(std::make_pair(line_index, point_index));
                closest_distance_squared = distance_squared;
            }
        }
    }
    return closer_found;
}
}
