// What the functions of this unit compute.
#include "infill/AbstractLinesInfill.h"
#include <fmt/format.h>
#include <range/v3/view/enumerate.hpp>
#include "geometry/OpenLinesSet.h"
#include "geometry/PointMatrix.h"
#include "geometry/Shape.h"
#include "utils/AABB.h"
#include "utils/OpenPolylineStitcher.h"
#include "utils/linearAlg2D.h"
namespace cura
{
//= cura::AbstractLinesInfill::zigZaggify
OpenLinesSet AbstractLinesInfill::zigZaggify(std::vector<SplitLines>& split_lines, const Shape& in_outline)
{
    OpenLinesSet result;
    int chain_ends_remaining = split_lines.size() * 2;
    std::vector<std::array<std::optional<size_t>, 2>> connected_to(split_lines.size());
    for (const Polygon& outline_poly : in_outline)
    {
        std::vector<Point2LL> connector_points;
        std::optional<size_t> first_chain_chain_index;
        std::vector<Point2LL> path_to_first_chain;
        bool drawing = false;
        std::optional<size_t> connector_start_chain_index;
        std::optional<size_t> connector_start_point_index;
        Point2LL cur_point;
        for (size_t outline_point_index = 0; (chain_ends_remaining > 0 || drawing) && outline_point_index < outline_poly.size(); ++outline_point_index)
        {
            Point2LL op0 = outline_poly[outline_point_index];
            Point2LL op1 = outline_poly[(outline_point_index + 1) % outline_poly.size()];
            std::vector<size_t> points_on_outline_chain_index;
            std::vector<size_t> points_on_outline_point_index;
            for (const auto& [chain_index, split_line] : split_lines | ranges::views::enumerate)
            {
                for (const auto& [point_index, point] : split_line.chain | ranges::views::enumerate)
                {
                    short beyond = 0;
                    if (LinearAlg2D::getDist2FromLineSegment(op0, point, op1, &beyond) < 10 && ! beyond)
                    {
                        points_on_outline_point_index.push_back(point_index);
                        points_on_outline_chain_index.push_back(chain_index);
                    }
                }
            }
            if (outline_point_index == 0 || vSize2(op0 - cur_point) > MM2INT(0.1))
            {
                if (! first_chain_chain_index.has_value())
                {
                    path_to_first_chain.push_back(op0);
                }
                cur_point = op0;
                if (drawing)
                {
                    connector_points.push_back(op0);
                }
            }
            while (points_on_outline_chain_index.size() > 0)
            {
                size_t nearest_point_index = 0;
                double nearest_point_dist2 = std::numeric_limits<float>::infinity();
                for (size_t pi = 0; pi < points_on_outline_chain_index.size(); ++pi)
                {
                    double dist2 = vSize2f(split_lines[points_on_outline_chain_index[pi]].chain[points_on_outline_point_index[pi]] - cur_point);
                    if (dist2 < nearest_point_dist2)
                    {
                        nearest_point_dist2 = dist2;
                        nearest_point_index = pi;
                    }
                }
                const size_t point_index = points_on_outline_point_index[nearest_point_index];
                const size_t chain_index = points_on_outline_chain_index[nearest_point_index];
                cur_point = split_lines[chain_index].chain[point_index];
                if (drawing && connector_points.size() > 0 && vSize2(cur_point - connector_points.back()) < MM2INT(0.1))
                {
                    connector_points.pop_back();
                }
                connector_points.push_back(cur_point);
                if (! first_chain_chain_index.has_value())
                {
                    first_chain_chain_index = chain_index;
                    path_to_first_chain.push_back(cur_point);
                }
                if (drawing)
                {
                    if (chain_index != connector_start_chain_index && connected_to[chain_index][(point_index + 1) % 2] != connector_start_chain_index)
                    {
                        result.push_back(OpenPolyline{ connector_points });
                        drawing = false;
                        connector_points.clear();
                        connected_to[chain_index][point_index] = connector_start_chain_index;
                        connected_to[*connector_start_chain_index][*connector_start_point_index] = chain_index;
                    }
                    else
                    {
                        connector_points.clear();
                        connector_points.push_back(cur_point);
                        connector_start_chain_index = chain_index;
                        connector_start_point_index = point_index;
                    }
                }
                else
                {
                    drawing = true;
                    if (! connector_start_chain_index.has_value() || split_lines[chain_index].column_id != split_lines[*connector_start_chain_index].column_id)
                    {
                        connector_start_chain_index = chain_index;
                        connector_start_point_index = point_index;
                    }
                }
                points_on_outline_chain_index.erase(points_on_outline_chain_index.begin() + nearest_point_index);
                points_on_outline_point_index.erase(points_on_outline_point_index.begin() + nearest_point_index);
                --chain_ends_remaining;
            }
        }
        if (drawing && first_chain_chain_index.has_value() && first_chain_chain_index != connector_start_chain_index
            && connected_to[*first_chain_chain_index][0] != connector_start_chain_index && connected_to[*first_chain_chain_index][1] != connector_start_chain_index)
        {
            connector_points.push_back(outline_poly[0]);
            result.push_back(OpenPolyline{ connector_points });
            result.push_back(OpenPolyline{ path_to_first_chain });
        }
        if (chain_ends_remaining < 1)
        {
            break;
        }
    }
    return result;
}
//END
}
