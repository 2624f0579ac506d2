// What the functions of this unit compute.
#ifndef PATH_PLANNING_LINE_POLYGONS_CROSSINGS_H
#define PATH_PLANNING_LINE_POLYGONS_CROSSINGS_H
#include "pathPlanning/CombPath.h"
#include "geometry/PointMatrix.h"
#include "geometry/Polygon.h"
#include "utils/polygonUtils.h"
namespace cura
{
class LinePolygonsCrossings
{
private:
    struct Crossing
    {
        size_t poly_idx_;
        coord_t x_;
        size_t point_idx_;
        Crossing(const size_t poly_idx, const coord_t x, const size_t point_idx);
    };
    std::vector<Crossing> crossings_;
    const Shape& boundary_;
    LocToLineGrid& loc_to_line_grid_;
    Point2LL start_point_;
    Point2LL end_point_;
    int64_t dist_to_move_boundary_point_outside_;
    PointMatrix transformation_matrix_;
    Point2LL transformed_start_point_;
    Point2LL transformed_end_point_;
    bool lineSegmentCollidesWithBoundary();
    bool calcScanlineCrossings(bool fail_on_unavoidable_obstacles);
    bool generateCombingPath(CombPath& combPath, int64_t max_comb_distance_ignored, bool fail_on_unavoidable_obstacles);
    void generateBasicCombingPath(CombPath& combPath);
    void generateBasicCombingPath(const Crossing& min, const Crossing& max, CombPath& combPath);
    bool optimizePath(CombPath& comb_path, CombPath& optimized_comb_path);
//= cura::LinePolygonsCrossings::LinePolygonsCrossings
    LinePolygonsCrossings(const Shape& boundary, LocToLineGrid& loc_to_line_grid, Point2LL& start, Point2LL& end, int64_t dist_to_move_boundary_point_outside)
        : boundary_(boundary)
        , loc_to_line_grid_(loc_to_line_grid)
        , start_point_(start)
        , end_point_(end)
        , dist_to_move_boundary_point_outside_(dist_to_move_boundary_point_outside)
    {
    }
//END
public:
    static bool comb(
        const Shape& boundary,
        LocToLineGrid& loc_to_line_grid,
        Point2LL startPoint,
        Point2LL endPoint,
        CombPath& combPath,
        int64_t dist_to_move_boundary_point_outside,
        int64_t max_comb_distance_ignored,
        bool fail_on_unavoidable_obstacles)
    {
        LinePolygonsCrossings linePolygonsCrossings(boundary, loc_to_line_grid, startPoint, endPoint, dist_to_move_boundary_point_outside);
        return linePolygonsCrossings.generateCombingPath(combPath, max_comb_distance_ignored, fail_on_unavoidable_obstacles);
    };
};
}
#endif
