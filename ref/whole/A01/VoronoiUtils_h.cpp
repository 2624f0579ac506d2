// What the functions of this unit compute.
#ifndef UTILS_VORONOI_UTILS_H
#define UTILS_VORONOI_UTILS_H
#include <vector>
#include <boost/polygon/voronoi.hpp>
#include "utils/PolygonsSegmentIndex.h"
namespace boost::polygon
{
template<>
struct voronoi_diagram_traits<cura::coord_t>
{
    typedef cura::coord_t coordinate_type;
    typedef voronoi_cell<coordinate_type> cell_type;
    typedef voronoi_vertex<coordinate_type> vertex_type;
    typedef voronoi_edge<coordinate_type> edge_type;
    class vertex_equality_predicate_type
    {
    public:
//= boost::polygon::voronoi_diagram_traits::vertex_equality_predicate_type::operator()
        bool operator()(const vertex_type& v1, const vertex_type& v2) const
        {
            return v1.x() == v2.x() && v1.y() == v2.y();
        }
//END
    };
};
}
namespace cura
{
class VoronoiUtils
{
public:
    using Segment = PolygonsSegmentIndex;
    using voronoi_data_t = coord_t;
    using vd_t = boost::polygon::voronoi_diagram<voronoi_data_t>;
    static Point2LL getSourcePoint(const vd_t::cell_type& cell, const std::vector<Point2LL>& points, const std::vector<Segment>& segments);
    static const Segment& getSourceSegment(const vd_t::cell_type& cell, const std::vector<Point2LL>& points, const std::vector<Segment>& segments);
    static PolygonsPointIndex getSourcePointIndex(const vd_t::cell_type& cell, const std::vector<Point2LL>& points, const std::vector<Segment>& segments);
    static Point2LL p(const vd_t::vertex_type* node);
    static bool isSourcePoint(const Point2LL& p, const vd_t::cell_type& cell, const std::vector<Point2LL>& points, const std::vector<Segment>& segments, coord_t snap_dist = 10);
    static coord_t getDistance(const Point2LL& p, const vd_t::cell_type& cell, const std::vector<Point2LL>& points, const std::vector<Segment>& segments);
    static std::vector<Point2LL>
        discretizeParabola(const Point2LL& source_point, const Segment& source_segment, Point2LL start, Point2LL end, coord_t approximate_step_size, double transitioning_angle);
protected:
    static void discretize(const Point2LL& point, const Segment& segment, const coord_t max_dist, std::vector<Point2LL>* discretization);
    static coord_t parabolaY(coord_t x, coord_t a, coord_t b);
    static double getPointProjection(const Point2LL& point, const Segment& segment);
};
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template struct boost::polygon::voronoi_diagram_traits<long long>::vertex_equality_predicate_type;
//END
