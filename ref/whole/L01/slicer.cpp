// What the functions of this unit compute.
#include "slicer.h"
#include <algorithm>
#include <cstdio>
#include <numbers>
#include <scripta/logger.h>
#include <spdlog/spdlog.h>
#include "Application.h"
#include "Slice.h"
#include "SlicedUVCoordinates.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "plugins/slots.h"
#include "raft.h"
#include "settings/AdaptiveLayerHeights.h"
#include "settings/EnumSettings.h"
#include "settings/types/LayerIndex.h"
#include "utils/Point3D.h"
#include "utils/Simplify.h"
#include "utils/SparsePointGridInclusive.h"
#include "utils/ThreadPool.h"
#include "utils/gettime.h"
#include "utils/polygonUtils.h"
#include "utils/section_type.h"
namespace cura
{
constexpr int largest_neglected_gap_first_phase = MM2INT(0.01);
constexpr int largest_neglected_gap_second_phase = MM2INT(0.02);
constexpr int max_stitch1 = MM2INT(10.0);
const SlicerLayer::Terminus SlicerLayer::Terminus::INVALID_TERMINUS{ ~static_cast<Index>(0U) };
//= cura::SlicerLayer::PossibleStitch::operator<
bool SlicerLayer::PossibleStitch::operator<(const PossibleStitch& other) const
{
    if (dist2 > other.dist2)
    {
        return true;
    }
    else if (dist2 < other.dist2)
    {
        return false;
    }
    if (! in_order() && other.in_order())
    {
        return true;
    }
    else if (in_order() && ! other.in_order())
    {
        return false;
    }
    if (terminus_0.asIndex() > other.terminus_0.asIndex())
    {
        return true;
    }
    else if (terminus_0.asIndex() < other.terminus_0.asIndex())
    {
        return false;
    }
    if (terminus_1.asIndex() > other.terminus_1.asIndex())
    {
        return true;
    }
    else if (terminus_1.asIndex() < other.terminus_1.asIndex())
    {
        return false;
    }
    return false;
}
//END
std::priority_queue<SlicerLayer::PossibleStitch>
//= cura::SlicerLayer::findPossibleStitches
    SlicerLayer::findPossibleStitches(const OpenLinesSet& open_polylines, coord_t max_dist, coord_t cell_size, bool allow_reverse) const
{
    std::priority_queue<PossibleStitch> stitch_queue;
    int64_t max_dist2 = max_dist * max_dist;
    struct StitchGridVal
    {
        unsigned int polyline_idx;
        Point2LL polyline_term_pt;
    };
    struct StitchGridValLocator
    {
//= skip cura::SlicerLayer::findPossibleStitches(const cura::OpenLinesSet &, long long, long long, bool)::StitchGridValLocator::operator()
        Point2LL operator()(const StitchGridVal& val) const
        {
            return val.polyline_term_pt;
        }
//END
    };
    SparsePointGrid<StitchGridVal, StitchGridValLocator> grid_ends(cell_size);
    SparsePointGrid<StitchGridVal, StitchGridValLocator> grid_starts(cell_size);
    for (unsigned int polyline_0_idx = 0; polyline_0_idx < open_polylines.size(); polyline_0_idx++)
    {
        const OpenPolyline& polyline_0 = open_polylines[polyline_0_idx];
        if (polyline_0.size() < 1)
            continue;
        StitchGridVal grid_val;
        grid_val.polyline_idx = polyline_0_idx;
        grid_val.polyline_term_pt = polyline_0.back();
        grid_ends.insert(grid_val);
    }
    if (allow_reverse)
    {
        for (unsigned int polyline_0_idx = 0; polyline_0_idx < open_polylines.size(); polyline_0_idx++)
        {
            const OpenPolyline& polyline_0 = open_polylines[polyline_0_idx];
            if (polyline_0.size() < 1)
                continue;
            StitchGridVal grid_val;
            grid_val.polyline_idx = polyline_0_idx;
            grid_val.polyline_term_pt = polyline_0[0];
            grid_starts.insert(grid_val);
        }
    }
    for (unsigned int polyline_1_idx = 0; polyline_1_idx < open_polylines.size(); polyline_1_idx++)
    {
        const OpenPolyline& polyline_1 = open_polylines[polyline_1_idx];
        if (polyline_1.size() < 1)
            continue;
        std::vector<StitchGridVal> nearby_ends;
        nearby_ends = grid_ends.getNearby(polyline_1[0], max_dist);
        for (const auto& nearby_end : nearby_ends)
        {
            Point2LL diff = nearby_end.polyline_term_pt - polyline_1[0];
            int64_t dist2 = vSize2(diff);
            if (dist2 < max_dist2)
            {
                PossibleStitch poss_stitch;
                poss_stitch.dist2 = dist2;
                poss_stitch.terminus_0 = Terminus{ nearby_end.polyline_idx, true };
                poss_stitch.terminus_1 = Terminus{ polyline_1_idx, false };
                stitch_queue.push(poss_stitch);
            }
        }
        if (allow_reverse)
        {
            nearby_ends = grid_ends.getNearby(polyline_1.back(), max_dist);
            for (const auto& nearby_end : nearby_ends)
            {
                if (nearby_end.polyline_idx == polyline_1_idx)
                {
                    continue;
                }
                Point2LL diff = nearby_end.polyline_term_pt - polyline_1.back();
                int64_t dist2 = vSize2(diff);
                if (dist2 < max_dist2)
                {
                    PossibleStitch poss_stitch;
                    poss_stitch.dist2 = dist2;
                    poss_stitch.terminus_0 = Terminus{ nearby_end.polyline_idx, true };
                    poss_stitch.terminus_1 = Terminus{ polyline_1_idx, true };
                    stitch_queue.push(poss_stitch);
                }
            }
            std::vector<StitchGridVal> nearby_starts = grid_starts.getNearby(polyline_1[0], max_dist);
            for (const auto& nearby_start : nearby_starts)
            {
                if (nearby_start.polyline_idx == polyline_1_idx)
                {
                    continue;
                }
                Point2LL diff = nearby_start.polyline_term_pt - polyline_1[0];
                int64_t dist2 = vSize2(diff);
                if (dist2 < max_dist2)
                {
                    PossibleStitch poss_stitch;
                    poss_stitch.dist2 = dist2;
                    poss_stitch.terminus_0 = Terminus{ nearby_start.polyline_idx, false };
                    poss_stitch.terminus_1 = Terminus{ polyline_1_idx, false };
                    stitch_queue.push(poss_stitch);
                }
            }
        }
    }
    return stitch_queue;
}
//END
//= cura::SlicerLayer::TerminusTrackingMap::TerminusTrackingMap
SlicerLayer::TerminusTrackingMap::TerminusTrackingMap(Terminus::Index end_idx)
    : m_terminus_old_to_cur_map(end_idx)
{
    for (size_t idx = 0U; idx != end_idx; ++idx)
    {
        m_terminus_old_to_cur_map[idx] = Terminus{ idx };
    }
    m_terminus_cur_to_old_map = m_terminus_old_to_cur_map;
}
//END
//= cura::SlicerLayer::TerminusTrackingMap::updateMap
void SlicerLayer::TerminusTrackingMap::updateMap(
    size_t num_terms,
    const Terminus* cur_terms,
    const Terminus* next_terms,
    size_t num_removed_terms,
    const Terminus* removed_cur_terms)
{
    std::vector<Terminus> old_terms(num_terms);
    for (size_t idx = 0U; idx != num_terms; ++idx)
    {
        old_terms[idx] = getOldFromCur(cur_terms[idx]);
    }
    for (size_t idx = 0U; idx != num_terms; ++idx)
    {
        m_terminus_old_to_cur_map[old_terms[idx].asIndex()] = next_terms[idx];
        Terminus next_term = next_terms[idx];
        if (next_term != Terminus::INVALID_TERMINUS)
        {
            m_terminus_cur_to_old_map[next_term.asIndex()] = old_terms[idx];
        }
    }
    for (size_t rem_idx = 0U; rem_idx != num_removed_terms; ++rem_idx)
    {
        m_terminus_cur_to_old_map[removed_cur_terms[rem_idx].asIndex()] = Terminus::INVALID_TERMINUS;
    }
}
//END
//= cura::SlicerLayer::connectOpenPolylinesImpl
void SlicerLayer::connectOpenPolylinesImpl(OpenLinesSet& open_polylines, coord_t max_dist, coord_t cell_size, bool allow_reverse)
{
    std::priority_queue<PossibleStitch> stitch_queue = findPossibleStitches(open_polylines, max_dist, cell_size, allow_reverse);
    static const Terminus INVALID_TERMINUS = Terminus::INVALID_TERMINUS;
    Terminus::Index terminus_end_idx = Terminus::endIndexFromPolylineEndIndex(open_polylines.size());
    TerminusTrackingMap terminus_tracking_map(terminus_end_idx);
    while (! stitch_queue.empty())
    {
        PossibleStitch next_stitch;
        next_stitch = stitch_queue.top();
        stitch_queue.pop();
        Terminus old_terminus_0 = next_stitch.terminus_0;
        Terminus terminus_0 = terminus_tracking_map.getCurFromOld(old_terminus_0);
        if (terminus_0 == INVALID_TERMINUS)
        {
            continue;
        }
        Terminus old_terminus_1 = next_stitch.terminus_1;
        Terminus terminus_1 = terminus_tracking_map.getCurFromOld(old_terminus_1);
        if (terminus_1 == INVALID_TERMINUS)
        {
            continue;
        }
        size_t best_polyline_0_idx = terminus_0.getPolylineIdx();
        size_t best_polyline_1_idx = terminus_1.getPolylineIdx();
        bool completed_poly = best_polyline_0_idx == best_polyline_1_idx;
        if (completed_poly)
        {
            OpenPolyline& polyline_0 = open_polylines[best_polyline_0_idx];
            polygons_.push_back(Polygon(std::move(polyline_0.getPoints()), true));
            Terminus cur_terms[2] = { { best_polyline_0_idx, false }, { best_polyline_0_idx, true } };
            for (size_t idx = 0U; idx != 2U; ++idx)
            {
                terminus_tracking_map.markRemoved(cur_terms[idx]);
            }
            continue;
        }
        bool reverse[2];
        planPolylineStitch(open_polylines, terminus_0, terminus_1, reverse);
        best_polyline_0_idx = terminus_0.getPolylineIdx();
        best_polyline_1_idx = terminus_1.getPolylineIdx();
        OpenPolyline& polyline_0 = open_polylines[best_polyline_0_idx];
        OpenPolyline& polyline_1 = open_polylines[best_polyline_1_idx];
        joinPolylines(polyline_0, polyline_1, reverse);
        Terminus cur_terms[4] = { { best_polyline_0_idx, false }, { best_polyline_0_idx, true }, { best_polyline_1_idx, false }, { best_polyline_1_idx, true } };
        Terminus next_terms[4] = { { best_polyline_0_idx, false }, INVALID_TERMINUS, INVALID_TERMINUS, { best_polyline_0_idx, true } };
        if (reverse[0])
        {
            std::swap(next_terms[0], next_terms[1]);
        }
        if (reverse[1])
        {
            std::swap(next_terms[2], next_terms[3]);
        }
        terminus_tracking_map.updateMap(4U, cur_terms, next_terms, 2U, &cur_terms[2]);
    }
}
//END
//= cura::SlicerLayer::stitch_extensive
void SlicerLayer::stitch_extensive(OpenLinesSet& open_polylines)
{
    while (1)
    {
        unsigned int best_polyline_1_idx = -1;
        unsigned int best_polyline_2_idx = -1;
        std::optional<GapCloserResult> best_result;
        for (unsigned int polyline_1_idx = 0; polyline_1_idx < open_polylines.size(); polyline_1_idx++)
        {
            OpenPolyline& polyline_1 = open_polylines[polyline_1_idx];
            if (polyline_1.size() < 1)
                continue;
            {
                std::optional<GapCloserResult> res = findPolygonGapCloser(polyline_1[0], polyline_1.back());
                if (res && (! best_result || res->len < best_result->len))
                {
                    best_polyline_1_idx = polyline_1_idx;
                    best_polyline_2_idx = polyline_1_idx;
                    best_result = res;
                }
            }
            for (unsigned int polyline_2_idx = 0; polyline_2_idx < open_polylines.size(); polyline_2_idx++)
            {
                OpenPolyline& polyline_2 = open_polylines[polyline_2_idx];
                if (polyline_2.size() < 1 || polyline_1_idx == polyline_2_idx)
                    continue;
                std::optional<GapCloserResult> res = findPolygonGapCloser(polyline_1[0], polyline_2.back());
                if (res && (! best_result || res->len < best_result->len))
                {
                    best_polyline_1_idx = polyline_1_idx;
                    best_polyline_2_idx = polyline_2_idx;
                    best_result = res;
                }
            }
        }
        if (best_result)
        {
            if (best_polyline_1_idx == best_polyline_2_idx)
            {
                if (best_result->pointIdxA == best_result->pointIdxB)
                {
                    polygons_.push_back(Polygon(open_polylines[best_polyline_1_idx].getPoints(), true));
                    open_polylines[best_polyline_1_idx].clear();
                }
                else if (best_result->AtoB)
                {
                    Polygon& poly = polygons_.newLine();
                    for (unsigned int j = best_result->pointIdxA; j != best_result->pointIdxB; j = (j + 1) % polygons_[best_result->polygonIdx].size())
                        poly.push_back(polygons_[best_result->polygonIdx][j]);
                    for (unsigned int j = open_polylines[best_polyline_1_idx].size() - 1; int(j) >= 0; j--)
                        poly.push_back(open_polylines[best_polyline_1_idx][j]);
                    open_polylines[best_polyline_1_idx].clear();
                }
                else
                {
                    unsigned int n = polygons_.size();
                    polygons_.push_back(Polygon(open_polylines[best_polyline_1_idx].getPoints(), true));
                    for (unsigned int j = best_result->pointIdxB; j != best_result->pointIdxA; j = (j + 1) % polygons_[best_result->polygonIdx].size())
                        polygons_[n].push_back(polygons_[best_result->polygonIdx][j]);
                    open_polylines[best_polyline_1_idx].clear();
                }
            }
            else
            {
                if (best_result->pointIdxA == best_result->pointIdxB)
                {
                    for (unsigned int n = 0; n < open_polylines[best_polyline_1_idx].size(); n++)
                        open_polylines[best_polyline_2_idx].push_back(open_polylines[best_polyline_1_idx][n]);
                    open_polylines[best_polyline_1_idx].clear();
                }
                else if (best_result->AtoB)
                {
                    Polygon poly;
                    for (unsigned int n = best_result->pointIdxA; n != best_result->pointIdxB; n = (n + 1) % polygons_[best_result->polygonIdx].size())
                        poly.push_back(polygons_[best_result->polygonIdx][n]);
                    for (unsigned int n = poly.size() - 1; int(n) >= 0; n--)
                        open_polylines[best_polyline_2_idx].push_back(poly[n]);
                    for (unsigned int n = 0; n < open_polylines[best_polyline_1_idx].size(); n++)
                        open_polylines[best_polyline_2_idx].push_back(open_polylines[best_polyline_1_idx][n]);
                    open_polylines[best_polyline_1_idx].clear();
                }
                else
                {
                    for (unsigned int n = best_result->pointIdxB; n != best_result->pointIdxA; n = (n + 1) % polygons_[best_result->polygonIdx].size())
                        open_polylines[best_polyline_2_idx].push_back(polygons_[best_result->polygonIdx][n]);
                    for (unsigned int n = open_polylines[best_polyline_1_idx].size() - 1; int(n) >= 0; n--)
                        open_polylines[best_polyline_2_idx].push_back(open_polylines[best_polyline_1_idx][n]);
                    open_polylines[best_polyline_1_idx].clear();
                }
            }
        }
        else
        {
            break;
        }
    }
}
//END
}
