// Combing.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "Application.h"
#include "ExtruderTrain.h"
#include "Slice.h"
#include "geometry/PartsView.h"
#include "geometry/PointMatrix.h"
#include "geometry/Polygon.h"
#include "geometry/SingleShape.h"
#include "pathPlanning/Comb.h"
#include "pathPlanning/CombPath.h"
#include "pathPlanning/CombPaths.h"
#include "pathPlanning/LinePolygonsCrossings.h"
#include "settings/types/LayerIndex.h"
#include "sliceDataStorage.h"
#include "utils/PolygonsPointIndex.h"
#include "utils/linearAlg2D.h"
#include "utils/polygonUtils.h"
#include <algorithm>
#include <functional> // function
#include <limits> // To find the maximum for coord_t.
#include <memory> // shared_ptr
#include <unordered_set>
#include "pathPlanning/Comb.h"
#include "pathPlanning/LinePolygonsCrossings.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::Comb::getOutsideLocToLine
LocToLineGrid& r1(cura::Comb& self, const ExtruderTrain& train)
{
    if (self.outside_loc_to_line_[train.extruder_nr_] == nullptr)
    {
        self.outside_loc_to_line_[train.extruder_nr_] = PolygonUtils::createLocToLineGrid(self.getBoundaryOutside(train), self.offset_from_inside_to_outside_ * 3 / 2);
    }
    return *self.outside_loc_to_line_[train.extruder_nr_];
}

//= cura::Comb::getBoundaryOutside
Shape& r2(cura::Comb& self, const ExtruderTrain& train)
{
    if (self.boundary_outside_[train.extruder_nr_].empty())
    {
        bool travel_avoid_supports = train.settings_.get<bool>("travel_avoid_supports");
        self.boundary_outside_[train.extruder_nr_] = self.storage_.getLayerOutlines(self.layer_nr_, travel_avoid_supports, travel_avoid_supports).offset(self.travel_avoid_distance_);
    }
    return self.boundary_outside_[train.extruder_nr_];
}

//= cura::Comb::getModelBoundary
Shape& r3(cura::Comb& self, const ExtruderTrain& train)
{
    if (self.model_boundary_[train.extruder_nr_].empty())
    {
        bool travel_avoid_supports = train.settings_.get<bool>("travel_avoid_supports");
        self.model_boundary_[train.extruder_nr_] = self.storage_.getLayerOutlines(self.layer_nr_, travel_avoid_supports, travel_avoid_supports);
    }
    return self.boundary_outside_[train.extruder_nr_];
}

//= cura::Comb::getModelBoundaryLocToLine
LocToLineGrid& r4(cura::Comb& self, const ExtruderTrain& train)
{
    if (self.model_boundary_loc_to_line_[train.extruder_nr_] == nullptr)
    {
        self.model_boundary_loc_to_line_[train.extruder_nr_] = PolygonUtils::createLocToLineGrid(self.getModelBoundary(train), self.offset_from_inside_to_outside_ * 3 / 2);
    }
    return *self.model_boundary_loc_to_line_[train.extruder_nr_];
}

//= cura::Comb::moveCombPathInside
void r7(cura::Comb& self, const Shape& boundary_inside, const Shape& boundary_inside_optimal, const CombPath& comb_path_input, CombPath& comb_path_output)
{
    const coord_t dist = self.move_inside_distance_;
    const coord_t dist2 = dist * dist;
    if (comb_path_input.size() == 0)
    {
        return;
    }
    comb_path_output.push_back(comb_path_input[0]);
    for (unsigned int point_idx = 1; point_idx < comb_path_input.size() - 1; point_idx++)
    {
        Point2LL new_point = Point2LL(comb_path_input[point_idx]);
        PolygonUtils::moveInside(boundary_inside, new_point, dist, dist2);
        if (boundary_inside_optimal.inside(new_point))
        {
            comb_path_output.push_back(new_point);
        }
        else
        {
            comb_path_output.push_back(comb_path_input[point_idx]);
        }
    }
    if (comb_path_input.size() > 1)
    {
        comb_path_output.push_back(comb_path_input[comb_path_input.size() - 1]);
    }
}

//= cura::Comb::moveInside
bool r9(cura::Comb& self, Shape& boundary_inside, bool is_inside, LocToLineGrid* inside_loc_to_line, Point2LL& dest_point, size_t& inside_poly, const std::optional<coord_t>& max_move_inside_distance_squared)
{
    if (is_inside)
    {
        ClosestPointPolygon cpp = PolygonUtils::ensureInsideOrOutside(
            boundary_inside,
            dest_point,
            self.offset_extra_start_end_,
            max_move_inside_distance_squared.value_or(self.max_moveInside_distance2_),
            &boundary_inside,
            inside_loc_to_line);
        if (! cpp.isValid())
        {
            return false;
        }
        else
        {
            inside_poly = cpp.poly_idx_;
            return true;
        }
    }
    return false;
}

//= cura::Comb::Crossing::findOutside
bool r11(cura::Comb::Crossing& self, const ExtruderTrain& train, const Shape& outside, const Point2LL close_to, const bool fail_on_unavoidable_obstacles, Comb& comber)
{
    self.out_ = self.in_or_mid_;
    if (self.dest_is_inside_ || outside.inside(self.in_or_mid_, true)) 
    { 
        Point2LL preferred_crossing_1_out = self.in_or_mid_ + normal(close_to - self.in_or_mid_, comber.offset_from_inside_to_outside_);
        std::function<int(Point2LL)> close_to_penalty_function(
            [preferred_crossing_1_out](Point2LL candidate)
            {
                return vSize2((candidate - preferred_crossing_1_out) / 2);
            });
        std::optional<ClosestPointPolygon> crossing_1_out_cpp = PolygonUtils::findClose(self.in_or_mid_, outside, comber.getOutsideLocToLine(train), close_to_penalty_function);
        if (crossing_1_out_cpp)
        {
            self.out_ = PolygonUtils::moveOutside(*crossing_1_out_cpp, comber.offset_dist_to_get_from_on_the_polygon_to_outside_);
        }
        else
        {
            PolygonUtils::moveOutside(outside, self.out_, comber.offset_dist_to_get_from_on_the_polygon_to_outside_);
        }
    }
    int64_t in_out_dist2_1 = vSize2(self.out_ - self.in_or_mid_);
    if (self.dest_is_inside_ && in_out_dist2_1 > comber.max_crossing_dist2_) 
    { 
        std::shared_ptr<std::pair<ClosestPointPolygon, ClosestPointPolygon>> best = self.findBestCrossing(train, outside, **self.dest_crossing_poly_, self.dest_point_, close_to, comber);
        if (best)
        {
            self.in_or_mid_ = PolygonUtils::moveInside(best->first, comber.offset_dist_to_get_from_on_the_polygon_to_outside_);
            self.out_ = PolygonUtils::moveOutside(best->second, comber.offset_dist_to_get_from_on_the_polygon_to_outside_);
        }
        if (fail_on_unavoidable_obstacles && vSize2(self.out_ - self.in_or_mid_) > comber.max_crossing_dist2_) 
        {
            return false;
        }
    }
    return true;
}

//= cura::LinePolygonsCrossings::Crossing::Crossing
void r13(cura::LinePolygonsCrossings::Crossing& self, const size_t poly_idx, const coord_t x, const size_t point_idx)
{
        member(self.poly_idx_) = poly_idx;
        member(self.x_) = x;
        member(self.point_idx_) = point_idx;
}

//= cura::LinePolygonsCrossings::calcScanlineCrossings
namespace n14
{
using Crossing = cura::LinePolygonsCrossings::Crossing;
bool r14(cura::LinePolygonsCrossings& self, bool fail_on_unavoidable_obstacles)
{
    for (unsigned int poly_idx = 0; poly_idx < self.boundary_.size(); poly_idx++)
    {
        const Polygon& poly = self.boundary_[poly_idx];
        Point2LL p0 = self.transformation_matrix_.apply(poly[poly.size() - 1]);
        for (unsigned int point_idx = 0; point_idx < poly.size(); point_idx++)
        {
            Point2LL p1 = self.transformation_matrix_.apply(poly[point_idx]);
            if ((p0.Y >= self.transformed_start_point_.Y && p1.Y <= self.transformed_start_point_.Y) || (p1.Y >= self.transformed_start_point_.Y && p0.Y <= self.transformed_start_point_.Y))
            { 
                if (p1.Y == p0.Y) 
                {
                    p0 = p1;
                    continue;
                }
                const coord_t x = p0.X + (p1.X - p0.X) * (self.transformed_start_point_.Y - p0.Y) / (p1.Y - p0.Y); 
                if (x >= self.transformed_start_point_.X && x <= self.transformed_end_point_.X)
                {
                    if (! ((p1.Y == self.transformed_start_point_.Y && p1.Y < p0.Y) || (p0.Y == self.transformed_start_point_.Y && p0.Y < p1.Y)))
                    { 
                        self.crossings_.emplace_back(poly_idx, x, point_idx);
                    }
                }
            }
            p0 = p1;
        }
        if (fail_on_unavoidable_obstacles && self.crossings_.size() % 2 == 1)
        { 
            return false;
        }
    }
    std::stable_sort(
        self.crossings_.begin(),
        self.crossings_.end(),
        [](const Crossing& a, const Crossing& b) -> bool
        {
            return a.x_ < b.x_;
        });
    return true;
}
} // namespace n14

//= cura::LinePolygonsCrossings::lineSegmentCollidesWithBoundary
bool r15(cura::LinePolygonsCrossings& self)
{
    Point2LL diff = self.end_point_ - self.start_point_;
    self.transformation_matrix_ = PointMatrix(diff);
    self.transformed_start_point_ = self.transformation_matrix_.apply(self.start_point_);
    self.transformed_end_point_ = self.transformation_matrix_.apply(self.end_point_);
    for (const Polygon& poly : self.boundary_)
    {
        Point2LL p0 = self.transformation_matrix_.apply(poly.back());
        for (Point2LL p1_ : poly)
        {
            Point2LL p1 = self.transformation_matrix_.apply(p1_);
            if (p1.Y != p0.Y
                && ((p0.Y >= self.transformed_start_point_.Y && p1.Y <= self.transformed_start_point_.Y) || (p1.Y >= self.transformed_start_point_.Y && p0.Y <= self.transformed_start_point_.Y)))
            {
                int64_t x = p0.X + (p1.X - p0.X) * (self.transformed_start_point_.Y - p0.Y) / (p1.Y - p0.Y);
                if (x > self.transformed_start_point_.X && x < self.transformed_end_point_.X)
                {
                    return true;
                }
            }
            p0 = p1;
        }
    }
    return false;
}

//= cura::LinePolygonsCrossings::generateCombingPath
bool r16(cura::LinePolygonsCrossings& self, CombPath& combPath, int64_t max_comb_distance_ignored, bool fail_on_unavoidable_obstacles)
{
    if (shorterThen(self.end_point_ - self.start_point_, max_comb_distance_ignored) || ! self.lineSegmentCollidesWithBoundary())
    {
        combPath.push_back(self.start_point_);
        combPath.push_back(self.end_point_);
        return true;
    }
    bool success = self.calcScanlineCrossings(fail_on_unavoidable_obstacles);
    if (! success)
    {
        return false;
    }
    CombPath basicPath;
    self.generateBasicCombingPath(basicPath);
    self.optimizePath(basicPath, combPath);
    return true;
}

//= cura::LinePolygonsCrossings::generateBasicCombingPath
void r17(cura::LinePolygonsCrossings& self, CombPath& combPath)
{
    for (unsigned i = 0; i < self.crossings_.size(); ++i)
    {
        for (unsigned j = i + 1; j < self.crossings_.size(); ++j)
        {
            if (self.crossings_[i].poly_idx_ == self.crossings_[j].poly_idx_)
            {
                self.generateBasicCombingPath(self.crossings_[i], self.crossings_[j], combPath);
                i = j;
                break;
            }
        }
    }
    combPath.push_back(self.end_point_);
}

//= cura::LinePolygonsCrossings::generateBasicCombingPath
namespace n18
{
using Crossing = cura::LinePolygonsCrossings::Crossing;
void r18(cura::LinePolygonsCrossings& self, const Crossing& min, const Crossing& max, CombPath& combPath)
{
    const Polygon& poly = self.boundary_[min.poly_idx_];
    combPath.push_back(self.transformation_matrix_.unapply(Point2LL(min.x_ - std::abs(self.dist_to_move_boundary_point_outside_), self.transformed_start_point_.Y)));
    std::vector<Point2LL> fwd_points;
    Point2LL prev = combPath.back();
    coord_t fwd_len = 0;
    for (unsigned int point_idx = min.point_idx_; point_idx != max.point_idx_; point_idx = (point_idx < poly.size() - 1) ? (point_idx + 1) : (0))
    {
        const Point2LL p = PolygonUtils::getBoundaryPointWithOffset(poly, point_idx, self.dist_to_move_boundary_point_outside_);
        fwd_points.push_back(p);
        fwd_len += vSize(p - prev);
        prev = p;
    }
    const Point2LL last = self.transformation_matrix_.unapply(Point2LL(max.x_ + std::abs(self.dist_to_move_boundary_point_outside_), self.transformed_start_point_.Y));
    if (fwd_points.size() > 0)
    {
        fwd_len += vSize(last - fwd_points.back());
    }
    std::vector<Point2LL> rev_points;
    prev = combPath.back();
    coord_t rev_len = 0;
    unsigned int min_idx = (min.point_idx_ == 0) ? poly.size() - 1 : min.point_idx_ - 1;
    unsigned int max_idx = (max.point_idx_ == 0) ? poly.size() - 1 : max.point_idx_ - 1;
    for (unsigned int point_idx = min_idx; point_idx != max_idx; point_idx = (point_idx > 0) ? (point_idx - 1) : (poly.size() - 1))
    {
        const Point2LL p = PolygonUtils::getBoundaryPointWithOffset(poly, point_idx, self.dist_to_move_boundary_point_outside_);
        rev_points.push_back(p);
        rev_len += vSize(p - prev);
        prev = p;
        if (rev_len > fwd_len)
        {
            break;
        }
    }
    if (rev_points.size() > 0)
    {
        rev_len += vSize(last - rev_points.back());
    }
    for (auto& p : (fwd_len < rev_len) ? fwd_points : rev_points)
    {
        combPath.push_back(p);
    }
    combPath.push_back(last);
}
} // namespace n18

//= cura::LinePolygonsCrossings::optimizePath
bool r19(cura::LinePolygonsCrossings& self, CombPath& comb_path, CombPath& optimized_comb_path)
{
    optimized_comb_path.push_back(self.start_point_);
    for (unsigned int point_idx = 1; point_idx < comb_path.size(); point_idx++)
    {
        if (comb_path[point_idx] == comb_path[point_idx - 1]) 
        {
            continue;
        }
        Point2LL& current_point = optimized_comb_path.back();
        if (PolygonUtils::polygonCollidesWithLineSegment(current_point, comb_path[point_idx], self.loc_to_line_grid_))
        {
            if (PolygonUtils::polygonCollidesWithLineSegment(current_point, comb_path[point_idx - 1], self.loc_to_line_grid_))
            {
                comb_path.cross_boundary = true;
            }
            const int max_short_circuit_len = 1 << 3; 
            for (unsigned n = std::min(max_short_circuit_len, (int)optimized_comb_path.size()); n > 0; n >>= 1)
            {
                if (optimized_comb_path.size() > n
                    && ! PolygonUtils::polygonCollidesWithLineSegment(optimized_comb_path[optimized_comb_path.size() - n - 1], comb_path[point_idx - 1], self.loc_to_line_grid_))
                {
                    for (unsigned i = 0; i < n; ++i)
                    {
                        optimized_comb_path.pop_back();
                    }
                    break;
                }
            }
            optimized_comb_path.push_back(comb_path[point_idx - 1]);
            if (point_idx == 1)
            {
                Point2LL p = optimized_comb_path.back();
                for (double frac : { 0.9, 0.9, 0.7, 0.5 })
                {
                    p = comb_path[1] + (p - comb_path[1]) * frac;
                    if (! PolygonUtils::polygonCollidesWithLineSegment(self.start_point_, p, self.loc_to_line_grid_))
                    {
                        optimized_comb_path.back() = p;
                    }
                    else
                    {
                        break;
                    }
                }
            }
        }
        else
        {
            while (optimized_comb_path.size() > 1)
            {
                if (PolygonUtils::polygonCollidesWithLineSegment(optimized_comb_path[optimized_comb_path.size() - 2], comb_path[point_idx], self.loc_to_line_grid_))
                {
                    break;
                }
                else
                {
                    optimized_comb_path.pop_back();
                }
            }
        }
    }
    if (optimized_comb_path.size() > 1)
    {
        const unsigned n = optimized_comb_path.size();
        if (! PolygonUtils::polygonCollidesWithLineSegment(optimized_comb_path[n - 2], comb_path.back(), self.loc_to_line_grid_))
        {
            optimized_comb_path.pop_back();
        }
        else
        {
            for (double frac : { 0.9, 0.9, 0.7, 0.5 })
            {
                Point2LL p = optimized_comb_path[n - 2] + (optimized_comb_path[n - 1] - optimized_comb_path[n - 2]) * frac;
                if (! PolygonUtils::polygonCollidesWithLineSegment(p, comb_path.back(), self.loc_to_line_grid_))
                {
                    optimized_comb_path[n - 1] = p;
                }
                else
                {
                    break;
                }
            }
        }
    }
    optimized_comb_path.push_back(comb_path.back());
    return true;
}

//= cura::LinePolygonsCrossings::comb
bool r21(const Shape& boundary, LocToLineGrid& loc_to_line_grid, Point2LL startPoint, Point2LL endPoint, CombPath& combPath, int64_t dist_to_move_boundary_point_outside, int64_t max_comb_distance_ignored, bool fail_on_unavoidable_obstacles)
{
    LinePolygonsCrossings linePolygonsCrossings(boundary, loc_to_line_grid, startPoint, endPoint, dist_to_move_boundary_point_outside);
    return linePolygonsCrossings.generateCombingPath(combPath, max_comb_distance_ignored, fail_on_unavoidable_obstacles);
};

//END
}  // namespace ref
