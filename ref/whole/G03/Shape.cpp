// What the functions of this unit compute.
#include "geometry/Shape.h"
#include <algorithm>
#include <cstddef>
#include <mapbox/geometry/wagyu/wagyu.hpp>
#include <numeric>
#include <unordered_set>
#ifdef BUILD_TESTS
#include <boost/geometry/geometries/point_xy.hpp>
#include <boost/geometry/geometries/polygon.hpp>
#include <boost/geometry/io/wkt/read.hpp>
#include <fmt/format.h>
#include <range/v3/to_container.hpp>
#include <range/v3/view/c_str.hpp>
#include <range/v3/view/concat.hpp>
#include <range/v3/view/join.hpp>
#include <range/v3/view/take.hpp>
#include <range/v3/view/transform.hpp>
#endif
#include <range/v3/view/filter.hpp>
#include <range/v3/view/sliding.hpp>
#include "geometry/MixedLinesSet.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/PartsView.h"
#include "geometry/Polygon.h"
#include "geometry/SingleShape.h"
#include "settings/types/Ratio.h"
#include "utils/OpenPolylineStitcher.h"
#include "utils/linearAlg2D.h"
namespace cura
{
template<class LineType>
OpenLinesSet Shape::intersection(const LinesSet<LineType>& polylines, bool restitch, const coord_t max_stitch_distance, const bool split_into_segments) const
{
    if (empty() || polylines.empty())
    {
        return {};
    }
    ClipperLib::PolyTree result;
    ClipperLib::Clipper clipper(clipper_init);
    if (split_into_segments)
    {
        polylines.splitIntoSegments().addPaths(clipper, ClipperLib::ptSubject);
    }
    else
    {
        polylines.addPaths(clipper, ClipperLib::ptSubject);
    }
    addPaths(clipper, ClipperLib::ptClip);
    clipper.Execute(ClipperLib::ctIntersection, result);
    ClipperLib::Paths result_paths;
    ClipperLib::OpenPathsFromPolyTree(result, result_paths);
    OpenLinesSet result_lines(std::move(result_paths));
    if (restitch)
    {
        OpenLinesSet result_open_lines;
        Shape result_closed_lines;
        const coord_t snap_distance = 10_mu;
        OpenPolylineStitcher::stitch(result_lines, result_open_lines, result_closed_lines, max_stitch_distance, snap_distance);
        result_lines = std::move(result_open_lines);
        for (ClosedPolyline& closed_line : result_closed_lines)
        {
            if (! closed_line.empty())
            {
                if (closed_line.size() > 2)
                {
                    closed_line.push_back(closed_line.front());
                }
                result_lines.emplace_back(std::move(closed_line.getPoints()));
            }
        }
    }
    return result_lines;
}
//= cura::Shape::removeSmallAreas
void Shape::removeSmallAreas(const double min_area_size, const bool remove_holes)
{
    auto new_end = end();
    if (remove_holes)
    {
        for (auto it = begin(); it < new_end;)
        {
            if (std::abs(INT2MM2(it->area())) < min_area_size)
            {
                *it = std::move(*--new_end);
                continue;
            }
            it++;
        }
    }
    else
    {
        std::vector<Polygon*> small_holes;
        for (auto it = begin(); it < new_end;)
        {
            double area = INT2MM2(it->area());
            if (std::abs(area) < min_area_size)
            {
                if (area >= 0)
                {
                    --new_end;
                    if (it < new_end)
                    {
                        std::swap(*new_end, *it);
                        continue;
                    }
                    break;
                }
                small_holes.push_back(&(*it));
            }
            it++;
        }
        const auto removed_outlines_start = new_end;
        for (auto hole_it = small_holes.rbegin(); hole_it < small_holes.rend(); hole_it++)
        {
            for (auto outline_it = removed_outlines_start; outline_it < end(); outline_it++)
            {
                if (outline_it->inside((*hole_it)->front()))
                {
                    **hole_it = std::move(*--new_end);
                    break;
                }
            }
        }
    }
    resize(new_end - begin());
}
//END
//= cura::Shape::splitIntoPartsViewProcessPolyTreeNode
void Shape::splitIntoPartsViewProcessPolyTreeNode(PartsView& partsView, Shape& reordered, ClipperLib::PolyNode* node) const
{
    for (size_t n = 0; n < static_cast<size_t>(node->ChildCount()); n++)
    {
        ClipperLib::PolyNode* child = node->Childs[n];
        partsView.emplace_back();
        size_t pos = partsView.size() - 1;
        partsView[pos].push_back(reordered.size());
        reordered.emplace_back(std::move(child->Contour));
        for (size_t i = 0; i < static_cast<size_t>(child->ChildCount()); i++)
        {
            partsView[pos].push_back(reordered.size());
            reordered.emplace_back(std::move(child->Childs[i]->Contour));
            splitIntoPartsViewProcessPolyTreeNode(partsView, reordered, child->Childs[i]);
        }
    }
}
//END
#ifdef BUILD_TESTS
#endif
template OpenLinesSet Shape::intersection(const LinesSet<OpenPolyline>& polylines, bool restitch, const coord_t max_stitch_distance, const bool split_into_segments) const;
template OpenLinesSet Shape::intersection(const LinesSet<ClosedPolyline>& polylines, bool restitch, const coord_t max_stitch_distance, const bool split_into_segments) const;
template OpenLinesSet Shape::intersection(const LinesSet<Polygon>& polylines, bool restitch, const coord_t max_stitch_distance, const bool split_into_segments) const;
}
