// What the functions of this unit compute.
#ifndef SLICER_H
#define SLICER_H
#include <optional>
#include <queue>
#include <unordered_map>
#include "geometry/OpenLinesSet.h"
#include "geometry/Shape.h"
#include "settings/EnumSettings.h"
#include "utils/Point2F.h"
namespace cura
{
class AdaptiveLayer;
class Mesh;
class MeshVertex;
class Point3D;
class SlicedUVCoordinates;
class SlicerSegment
{
public:
    Point2LL start, end;
    std::optional<Point2F> uv_start, uv_end;
    int faceIndex = -1;
    int endOtherFaceIdx = -1;
    const MeshVertex* endVertex = nullptr;
    bool addedToPolygon = false;
};
class ClosePolygonResult
{
public:
    size_t polygonIdx = 0;
    size_t pointIdx = 0;
};
class GapCloserResult
{
public:
    coord_t len = 0;
    size_t polygonIdx = 0;
    size_t pointIdxA = 0;
    size_t pointIdxB = 0;
    bool AtoB = false;
};
class SlicerLayer
{
public:
    std::vector<SlicerSegment> segments_;
    std::unordered_map<int, int> face_idx_to_segment_idx_;
    int z_ = -1;
    Shape polygons_;
    OpenLinesSet open_polylines_;
    std::shared_ptr<SlicedUVCoordinates> sliced_uv_coordinates_;
    void makePolygons(const Mesh* mesh);
protected:
    void makeBasicPolygonLoops(OpenLinesSet& open_polylines);
    void makeBasicPolygonLoop(OpenLinesSet& open_polylines, const size_t start_segment_idx);
    int getNextSegmentIdx(const SlicerSegment& segment, const size_t start_segment_idx) const;
    void connectOpenPolylines(OpenLinesSet& open_polylines);
    void stitch(OpenLinesSet& open_polylines);
    std::optional<GapCloserResult> findPolygonGapCloser(Point2LL ip0, Point2LL ip1);
    std::optional<ClosePolygonResult> findPolygonPointClosestTo(Point2LL input);
    void stitch_extensive(OpenLinesSet& open_polylines);
private:
    class Terminus
    {
    public:
        using Index = size_t;
        static const Terminus INVALID_TERMINUS;
        Terminus()
        {
        }
        Terminus(Index idx)
        {
            idx_ = idx;
        }
        Terminus(size_t polyline_idx, bool is_end)
        {
            idx_ = polyline_idx * 2 + (is_end ? 1 : 0);
        }
        size_t getPolylineIdx() const
        {
            return idx_ / 2;
        }
        bool isEnd() const
        {
            return (idx_ & 1) == 1;
        }
        Index asIndex() const
        {
            return idx_;
        }
        static Index endIndexFromPolylineEndIndex(unsigned int polyline_end_idx)
        {
            return polyline_end_idx * 2;
        }
//= cura::SlicerLayer::Terminus::operator==
        bool operator==(const Terminus& other)
        {
            return idx_ == other.idx_;
        }
//END
//= cura::SlicerLayer::Terminus::operator!=
        bool operator!=(const Terminus& other)
        {
            return idx_ != other.idx_;
        }
//END
    private:
        Index idx_ = std::numeric_limits<Index>::max();
    };
    struct PossibleStitch
    {
        int64_t dist2 = -1;
        Terminus terminus_0;
        Terminus terminus_1;
        bool in_order() const
        {
            return terminus_0.isEnd() && ! terminus_1.isEnd();
        }
        bool operator<(const PossibleStitch& other) const;
    };
    class TerminusTrackingMap
    {
    public:
        TerminusTrackingMap(Terminus::Index end_idx);
//= cura::SlicerLayer::TerminusTrackingMap::getCurFromOld
        Terminus getCurFromOld(const Terminus& old) const
        {
            return m_terminus_old_to_cur_map[old.asIndex()];
        }
//END
//= cura::SlicerLayer::TerminusTrackingMap::getOldFromCur
        Terminus getOldFromCur(const Terminus& cur) const
        {
            return m_terminus_cur_to_old_map[cur.asIndex()];
        }
//END
//= cura::SlicerLayer::TerminusTrackingMap::markRemoved
        void markRemoved(const Terminus& cur)
        {
            Terminus old = getOldFromCur(cur);
            m_terminus_old_to_cur_map[old.asIndex()] = Terminus::INVALID_TERMINUS;
            m_terminus_cur_to_old_map[cur.asIndex()] = Terminus::INVALID_TERMINUS;
        }
//END
        void updateMap(size_t num_terms, const Terminus* cur_terms, const Terminus* next_terms, size_t num_removed_terms, const Terminus* removed_cur_terms);
    private:
        std::vector<Terminus> m_terminus_old_to_cur_map;
        std::vector<Terminus> m_terminus_cur_to_old_map;
    };
    int tryFaceNextSegmentIdx(const SlicerSegment& segment, const int face_idx, const size_t start_segment_idx) const;
    std::priority_queue<PossibleStitch> findPossibleStitches(const OpenLinesSet& open_polylines, coord_t max_dist, coord_t cell_size, bool allow_reverse) const;
    void planPolylineStitch(const OpenLinesSet& open_polylines, Terminus& terminus_0, Terminus& terminus_1, bool reverse[2]) const;
    static void joinPolylines(OpenPolyline& polyline_0, OpenPolyline& polyline_1, const bool reverse[2]);
    void connectOpenPolylinesImpl(OpenLinesSet& open_polylines, coord_t max_dist, coord_t cell_size, bool allow_reverse);
};
class Slicer
{
public:
    std::vector<SlicerLayer> layers;
    const Mesh* mesh = nullptr;
    Slicer(
        Mesh* mesh,
        const coord_t thickness,
        const size_t slice_layer_count,
        bool use_variable_layer_heights,
        std::vector<AdaptiveLayer>* adaptive_layers,
        const SlicingTolerance slicing_tolerance,
        const coord_t initial_layer_thickness);
private:
    static coord_t interpolate(const coord_t x, const coord_t x0, const coord_t x1, const coord_t y0, const coord_t y1);
    static Point2F interpolateUV(const Point3D& barycentric_coordinates, const Point2F& uv0, const Point2F& uv1, const Point2F& uv2);
    static std::optional<Point3D> getBarycentricCoordinates(const Point3LL& point, const Point3LL& p0, const Point3LL& p1, const Point3LL& p2);
    static SlicerSegment project2D(
        const Point3LL& p0,
        const Point3LL& p1,
        const Point3LL& p2,
        const std::optional<Point2F>& uv0,
        const std::optional<Point2F>& uv1,
        const std::optional<Point2F>& uv2,
        const coord_t z);
    static std::vector<std::pair<int32_t, int32_t>> buildZHeightsForFaces(const Mesh& mesh);
    static void makePolygons(Mesh& mesh, SlicingTolerance slicing_tolerance, std::vector<SlicerLayer>& layers);
    static std::vector<SlicerLayer> buildLayersWithHeight(
        size_t slice_layer_count,
        SlicingTolerance slicing_tolerance,
        coord_t initial_layer_thickness,
        coord_t thickness,
        bool use_variable_layer_heights,
        const std::vector<AdaptiveLayer>* adaptive_layers);
    static void
        buildSegments(const Mesh& mesh, const std::vector<std::pair<int32_t, int32_t>>& zbboxes, const SlicingTolerance& slicing_tolerance, std::vector<SlicerLayer>& layers);
};
}
#endif
