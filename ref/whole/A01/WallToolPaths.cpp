// What the functions of this unit compute.
#include "WallToolPaths.h"
#include <algorithm>
#include <unordered_set>
#include <range/v3/range/conversion.hpp>
#include <range/v3/view/filter.hpp>
#include <range/v3/view/transform.hpp>
#include <scripta/logger.h>
#include "BeadingStrategy/BeadingStrategyFactory.h"
#include "ExtruderTrain.h"
#include "arachne/SkeletalTrapezoidation.h"
#include "utils/ExtrusionLineStitcher.h"
#include "utils/Simplify.h"
#include "utils/actions/smooth.h"
#include "utils/polygonUtils.h"
namespace cura
{
//= cura::WallToolPaths::WallToolPaths
WallToolPaths::WallToolPaths(
    const Shape& outline,
    const coord_t nominal_bead_width,
    const size_t inset_count,
    const coord_t wall_0_inset,
    const coord_t wall_x_inset,
    const Settings& settings,
    const int layer_idx,
    SectionType section_type,
    WallToolPathGenerator generator)
    : outline_(outline)
    , bead_width_0_(nominal_bead_width)
    , bead_width_x_(nominal_bead_width)
    , inset_count_(inset_count)
    , wall_0_inset_(wall_0_inset)
    , wall_x_inset_(wall_x_inset)
    , print_thin_walls_(settings.get<bool>("fill_outline_gaps"))
    , min_feature_size_(nominal_bead_width / 4)
    , wall_transition_angle_(AngleDegrees(10))
    , wall_transition_length_(nominal_bead_width)
    , min_even_wall_line_width_(std::llrint(nominal_bead_width * 0.85))
    , wall_line_width_0_(nominal_bead_width)
    , min_odd_wall_line_width_(min_even_wall_line_width_)
    , min_bead_width_(std::min(min_even_wall_line_width_, min_odd_wall_line_width_))
    , wall_line_width_x_(nominal_bead_width)
    , wall_distribution_count_(1)
    , wall_transition_filter_distance_(MM2INT(100))
    , wall_transition_filter_deviation_(nominal_bead_width / 4)
    , stitch_distance_(nominal_bead_width - 1)
    , toolpaths_generated_(false)
    , settings_(settings)
    , layer_idx_(layer_idx)
    , section_type_(section_type)
    , generator_(generator)
{
}
//END
//= cura::WallToolPaths::WallToolPaths
WallToolPaths::WallToolPaths(
    const Shape& outline,
    const coord_t bead_width_0,
    const coord_t bead_width_x,
    const size_t inset_count,
    const coord_t wall_0_inset,
    const coord_t wall_x_inset,
    const Settings& settings,
    const int layer_idx,
    SectionType section_type)
    : outline_(outline)
    , bead_width_0_(bead_width_0)
    , bead_width_x_(bead_width_x)
    , inset_count_(inset_count)
    , wall_0_inset_(wall_0_inset)
    , wall_x_inset_(wall_x_inset)
    , print_thin_walls_(settings.get<bool>("fill_outline_gaps"))
    , min_feature_size_(settings.get<coord_t>("min_feature_size"))
    , min_bead_width_(settings.get<coord_t>("min_bead_width"))
    , wall_transition_angle_(settings.get<AngleRadians>("wall_transition_angle"))
    , wall_transition_length_(settings.get<coord_t>("wall_transition_length"))
    , min_even_wall_line_width_(settings.get<double>("min_even_wall_line_width"))
    , wall_line_width_0_(settings.get<double>("wall_line_width_0"))
    , min_odd_wall_line_width_(settings.get<double>("min_odd_wall_line_width"))
    , wall_line_width_x_(settings.get<double>("wall_line_width_x"))
    , wall_distribution_count_(settings.get<int>("wall_distribution_count"))
    , wall_transition_filter_distance_(settings.get<coord_t>("wall_transition_filter_distance"))
    , wall_transition_filter_deviation_(settings.get<coord_t>("wall_transition_filter_deviation"))
    , stitch_distance_(settings.get<coord_t>("wall_line_width_x") - 1)
    , toolpaths_generated_(false)
    , settings_(settings)
    , layer_idx_(layer_idx)
    , section_type_(section_type)
{
}
//END
//= cura::WallToolPaths::generateArachne
void WallToolPaths::generateArachne()
{
    MendedShape prepared_outline(&settings_, section_type_, &outline_);
    if (prepared_outline.getShape().area() <= 0)
    {
        assert(toolpaths_.empty());
        return;
    }
    constexpr coord_t discretization_step_size = MM2INT(0.8);
    const Ratio wall_split_middle_threshold = std::max(1.0, std::min(99.0, 100.0 * (2.0 * min_even_wall_line_width_ - wall_line_width_0_) / wall_line_width_0_)) / 100.0;
    const Ratio wall_add_middle_threshold = std::max(1.0, std::min(99.0, 100.0 * min_odd_wall_line_width_ / wall_line_width_x_)) / 100.0;
    const size_t max_bead_count = (inset_count_ < std::numeric_limits<size_t>::max() / 2) ? 2 * inset_count_ : std::numeric_limits<size_t>::max();
    const auto beading_strat = BeadingStrategyFactory::makeStrategy(
        bead_width_0_,
        bead_width_x_,
        wall_transition_length_,
        wall_transition_angle_,
        print_thin_walls_,
        min_bead_width_,
        min_feature_size_,
        wall_split_middle_threshold,
        wall_add_middle_threshold,
        max_bead_count,
        wall_0_inset_,
        wall_x_inset_,
        wall_distribution_count_);
    SkeletalTrapezoidation wall_maker(
        prepared_outline,
        *beading_strat,
        beading_strat->getTransitioningAngle(),
        discretization_step_size,
        wall_transition_filter_distance_,
        wall_transition_filter_deviation_,
        wall_transition_length_,
        layer_idx_,
        section_type_);
    wall_maker.generateToolpaths(toolpaths_);
    scripta::log(
        "toolpaths_0",
        toolpaths_,
        section_type_,
        layer_idx_,
        scripta::CellVDI{ "is_closed", &ExtrusionLine::is_closed_ },
        scripta::CellVDI{ "is_odd", &ExtrusionLine::is_odd_ },
        scripta::CellVDI{ "inset_idx", &ExtrusionLine::inset_idx_ },
        scripta::PointVDI{ "width", &ExtrusionJunction::w_ },
        scripta::PointVDI{ "perimeter_index", &ExtrusionJunction::perimeter_index_ });
    stitchToolPaths(toolpaths_, stitch_distance_);
    scripta::log(
        "toolpaths_1",
        toolpaths_,
        section_type_,
        layer_idx_,
        scripta::CellVDI{ "is_closed", &ExtrusionLine::is_closed_ },
        scripta::CellVDI{ "is_odd", &ExtrusionLine::is_odd_ },
        scripta::CellVDI{ "inset_idx", &ExtrusionLine::inset_idx_ },
        scripta::PointVDI{ "width", &ExtrusionJunction::w_ },
        scripta::PointVDI{ "perimeter_index", &ExtrusionJunction::perimeter_index_ });
    removeSmallFillLines(toolpaths_);
    scripta::log(
        "toolpaths_2",
        toolpaths_,
        section_type_,
        layer_idx_,
        scripta::CellVDI{ "is_closed", &ExtrusionLine::is_closed_ },
        scripta::CellVDI{ "is_odd", &ExtrusionLine::is_odd_ },
        scripta::CellVDI{ "inset_idx", &ExtrusionLine::inset_idx_ },
        scripta::PointVDI{ "width", &ExtrusionJunction::w_ },
        scripta::PointVDI{ "perimeter_index", &ExtrusionJunction::perimeter_index_ });
    simplifyToolPaths(toolpaths_, settings_);
    scripta::log(
        "toolpaths_3",
        toolpaths_,
        section_type_,
        layer_idx_,
        scripta::CellVDI{ "is_closed", &ExtrusionLine::is_closed_ },
        scripta::CellVDI{ "is_odd", &ExtrusionLine::is_odd_ },
        scripta::CellVDI{ "inset_idx", &ExtrusionLine::inset_idx_ },
        scripta::PointVDI{ "width", &ExtrusionJunction::w_ },
        scripta::PointVDI{ "perimeter_index", &ExtrusionJunction::perimeter_index_ });
    separateOutInnerContour();
    removeEmptyToolPaths(toolpaths_);
    scripta::log(
        "toolpaths_4",
        toolpaths_,
        section_type_,
        layer_idx_,
        scripta::CellVDI{ "is_closed", &ExtrusionLine::is_closed_ },
        scripta::CellVDI{ "is_odd", &ExtrusionLine::is_odd_ },
        scripta::CellVDI{ "inset_idx", &ExtrusionLine::inset_idx_ },
        scripta::PointVDI{ "width", &ExtrusionJunction::w_ },
        scripta::PointVDI{ "perimeter_index", &ExtrusionJunction::perimeter_index_ });
    assert(
        std::is_sorted(
            toolpaths_.cbegin(),
            toolpaths_.cend(),
            [](const VariableWidthLines& l, const VariableWidthLines& r)
            {
                return l.front().inset_idx_ < r.front().inset_idx_;
            })
        && "WallToolPaths should be sorted from the outer 0th to inner_walls");
    scripta::log(
        "toolpaths_5",
        toolpaths_,
        section_type_,
        layer_idx_,
        scripta::CellVDI{ "is_closed", &ExtrusionLine::is_closed_ },
        scripta::CellVDI{ "is_odd", &ExtrusionLine::is_odd_ },
        scripta::CellVDI{ "inset_idx", &ExtrusionLine::inset_idx_ },
        scripta::PointVDI{ "width", &ExtrusionJunction::w_ },
        scripta::PointVDI{ "perimeter_index", &ExtrusionJunction::perimeter_index_ });
}
//END
//= cura::WallToolPaths::generateNaiveInset
void WallToolPaths::generateNaiveInset()
{
    std::vector<Shape> walls;
    walls.reserve(inset_count_);
    if (inset_count_ > 0)
    {
        walls.push_back(outline_.offset(-wall_line_width_0_ / 2));
        inner_contour_ = outline_.offset(-(wall_line_width_0_ + (inset_count_ - 1) * wall_line_width_x_));
    }
    for (size_t wall_index = 1; wall_index < inset_count_; ++wall_index)
    {
        walls.push_back(outline_.offset(-(wall_line_width_0_ + (wall_index - 1) * wall_line_width_x_ + wall_line_width_x_ / 2)));
    }
    for (const auto& [inset_index, shape] : walls | ranges::views::enumerate)
    {
        VariableWidthLines lines;
        const coord_t line_width = inset_index == 0 ? wall_line_width_0_ : wall_line_width_x_;
        for (const Polygon& polygon : shape)
        {
            if (! polygon.isValid())
            {
                continue;
            }
            ExtrusionLine extrusion_line(inset_index);
            for (auto iterator = polygon.beginSegments(); iterator != polygon.endSegments(); ++iterator)
            {
                if (iterator == polygon.beginSegments())
                {
                    extrusion_line.emplace_back((*iterator).start, line_width, inset_index);
                }
                extrusion_line.emplace_back((*iterator).end, line_width, inset_index);
            }
            lines.push_back(std::move(extrusion_line));
        }
        toolpaths_.push_back(lines);
    }
}
//END
//= cura::WallToolPaths::getToolPaths
const std::vector<VariableWidthLines>& WallToolPaths::getToolPaths()
{
    if (! toolpaths_generated_)
    {
        return generate();
    }
    return toolpaths_;
}
//END
//= cura::WallToolPaths::pushToolPaths
void WallToolPaths::pushToolPaths(std::vector<VariableWidthLines>& paths)
{
    if (! toolpaths_generated_)
    {
        generate();
    }
    paths.insert(paths.end(), toolpaths_.begin(), toolpaths_.end());
}
//END
//= cura::WallToolPaths::separateOutInnerContour
void WallToolPaths::separateOutInnerContour()
{
    std::vector<VariableWidthLines> actual_toolpaths;
    actual_toolpaths.reserve(toolpaths_.size());
    std::vector<VariableWidthLines> contour_paths;
    contour_paths.reserve(toolpaths_.size() / inset_count_);
    inner_contour_.clear();
    for (const VariableWidthLines& inset : toolpaths_)
    {
        if (inset.empty())
        {
            continue;
        }
        bool is_contour = false;
        for (const ExtrusionLine& line : inset)
        {
            for (const ExtrusionJunction& j : line)
            {
                if (j.w_ == 0)
                {
                    is_contour = true;
                }
                else
                {
                    is_contour = false;
                }
                break;
            }
        }
        if (is_contour)
        {
#ifdef DEBUG
            for (const ExtrusionLine& line : inset)
            {
                for (const ExtrusionJunction& j : line)
                {
                    assert(j.w_ == 0);
                }
            }
#endif
            for (const ExtrusionLine& line : inset)
            {
                if (line.is_odd_)
                {
                    continue;
                }
                else if (line.is_closed_)
                {
                    inner_contour_.emplace_back(line.toPolygon());
                }
            }
        }
        else
        {
            actual_toolpaths.emplace_back(inset);
        }
    }
    if (! actual_toolpaths.empty())
    {
        toolpaths_ = std::move(actual_toolpaths);
    }
    else
    {
        toolpaths_.clear();
    }
    inner_contour_ = inner_contour_.processEvenOdd();
}
//END
//= cura::WallToolPaths::getInnerContour
const Shape& WallToolPaths::getInnerContour()
{
    if (! toolpaths_generated_ && inset_count_ > 0)
    {
        generate();
    }
    else if (inset_count_ == 0)
    {
        return outline_;
    }
    return inner_contour_;
}
//END
//= cura::WallToolPaths::removeEmptyToolPaths
bool WallToolPaths::removeEmptyToolPaths(std::vector<VariableWidthLines>& toolpaths)
{
    for (VariableWidthLines& toolpath : toolpaths)
    {
        toolpath.erase(
            std::remove_if(
                toolpath.begin(),
                toolpath.end(),
                [](const ExtrusionLine& line)
                {
                    return line.junctions_.empty();
                }),
            toolpath.end());
    }
    toolpaths.erase(
        std::remove_if(
            toolpaths.begin(),
            toolpaths.end(),
            [](const VariableWidthLines& lines)
            {
                return lines.empty();
            }),
        toolpaths.end());
    return toolpaths.empty();
}
//END
}
