// What the functions of this unit compute.
#ifndef GEOMETRY_POINTS_SET_H
#define GEOMETRY_POINTS_SET_H
#include "geometry/Point2LL.h"
#include "utils/Coord_t.h"
namespace cura
{
class PointMatrix;
class Point3Matrix;
const static int clipper_init = (0);
#define NO_INDEX (std::numeric_limits<size_t>::max())
class PointsSet
{
private:
    ClipperLib::Path points_;
public:
    using value_type = Point2LL;
    using iterator = typename std::vector<value_type>::iterator;
    using const_iterator = typename std::vector<value_type>::const_iterator;
    using reverse_iterator = typename std::vector<value_type>::reverse_iterator;
    using const_reverse_iterator = typename std::vector<value_type>::const_reverse_iterator;
    PointsSet() = default;
    PointsSet(const PointsSet& other) = default;
    PointsSet(PointsSet&& other) = default;
    PointsSet(const std::initializer_list<Point2LL>& initializer);
    virtual ~PointsSet() = default;
    explicit PointsSet(const ClipperLib::Path& points);
    explicit PointsSet(ClipperLib::Path&& points);
    [[nodiscard]] const ClipperLib::Path& getPoints() const
    {
        return points_;
    }
    ClipperLib::Path& getPoints()
    {
        return points_;
    }
    void setPoints(ClipperLib::Path&& points)
    {
        points_ = points;
    }
    [[nodiscard]] size_t size() const
    {
        return points_.size();
    }
    void push_back(const Point2LL& point)
    {
        points_.push_back(point);
    }
    void push_back(const PointsSet& other)
    {
        push_back(other.points_.begin(), other.points_.end());
    }
    void push_back(PointsSet&& other)
    {
        points_.insert(points_.end(), std::make_move_iterator(other.points_.begin()), std::make_move_iterator(other.points_.end()));
    }
    void push_back(const const_iterator& begin, const const_iterator& end)
    {
        points_.insert(points_.end(), begin, end);
    }
//= cura::PointsSet::emplace_back
    void emplace_back(auto&&... args)
    {
        points_.emplace_back(std::forward<decltype(args)>(args)...);
    }
//END
    void pop_back()
    {
        points_.pop_back();
    }
//= skip cura::PointsSet::insert
    void insert(auto&&... args)
    {
        points_.insert(std::forward<decltype(args)>(args)...);
    }
//END
    [[nodiscard]] const_iterator begin() const
    {
        return points_.begin();
    }
    iterator begin()
    {
        return points_.begin();
    }
    [[nodiscard]] const_iterator end() const
    {
        return points_.end();
    }
    iterator end()
    {
        return points_.end();
    }
    [[nodiscard]] const_reverse_iterator rbegin() const
    {
        return points_.rbegin();
    }
    reverse_iterator rbegin()
    {
        return points_.rbegin();
    }
    [[nodiscard]] const_reverse_iterator rend() const
    {
        return points_.rend();
    }
    reverse_iterator rend()
    {
        return points_.rend();
    }
    [[nodiscard]] const Point2LL& front() const
    {
        return points_.front();
    }
    Point2LL& front()
    {
        return points_.front();
    }
    [[nodiscard]] const Point2LL& back() const
    {
        return points_.back();
    }
    Point2LL& back()
    {
        return points_.back();
    }
    [[nodiscard]] const Point2LL& at(const size_t pos) const
    {
        return points_.at(pos);
    }
    Point2LL& at(const size_t pos)
    {
        return points_.at(pos);
    }
    [[nodiscard]] bool empty() const
    {
        return points_.empty();
    }
    void resize(const size_t size)
    {
        points_.resize(size);
    }
    void reserve(const size_t size)
    {
        points_.reserve(size);
    }
    void clear()
    {
        points_.clear();
    }
    Point2LL& operator[](size_t index)
    {
        return points_[index];
    }
    const Point2LL& operator[](size_t index) const
    {
        return points_[index];
    }
    PointsSet& operator=(const PointsSet& other) = default;
    PointsSet& operator=(PointsSet&& other) = default;
    void translate(const Point2LL& translation);
    void applyMatrix(const PointMatrix& matrix);
    void applyMatrix(const Point3Matrix& matrix);
//= skip cura::operator<<
    template<class CharT, class TraitsT>
    friend std::basic_ostream<CharT, TraitsT>& operator<<(std::basic_ostream<CharT, TraitsT>& os, const PointsSet& polygon)
    {
        return os << "PointsSet(" << polygon.getPoints() << ")";
    }
//END
};
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template void cura::PointsSet::emplace_back<<ClipperLib::IntPoint &>>(ClipperLib::IntPoint &);
//END
//= instance
template void cura::PointsSet::emplace_back<<ClipperLib::IntPoint>>(ClipperLib::IntPoint &&);
//END
//= instance
template void cura::PointsSet::emplace_back<<const double &, const double &>>(const double &, const double &);
//END
//= instance
template void cura::PointsSet::emplace_back<<const long long &, const long long &>>(const long long &, const long long &);
//END
//= instance
template void cura::PointsSet::emplace_back<<double, double>>(double &&, double &&);
//END
//= instance
template void cura::PointsSet::emplace_back<<long long &, long long &>>(long long &, long long &);
//END
//= instance
template void cura::PointsSet::emplace_back<<long long &, long long>>(long long &, long long &&);
//END
//= instance
template void cura::PointsSet::emplace_back<<long long, long long &>>(long long &&, long long &);
//END
//= instance
template void cura::PointsSet::emplace_back<<long long, long long>>(long long &&, long long &&);
//END
//= instance
template void cura::PointsSet::insert<<__gnu_cxx::__normal_iterator<ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>>, ClipperLib::IntPoint &>>(__gnu_cxx::__normal_iterator<ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>> &&, ClipperLib::IntPoint &);
//END
//= instance
template void cura::PointsSet::insert<<__gnu_cxx::__normal_iterator<ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>>, __gnu_cxx::__normal_iterator<ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>>, __gnu_cxx::__normal_iterator<ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>>>>(__gnu_cxx::__normal_iterator<ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>> &&, __gnu_cxx::__normal_iterator<ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>> &&, __gnu_cxx::__normal_iterator<ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>> &&);
//END
//= instance
template void cura::PointsSet::insert<<__gnu_cxx::__normal_iterator<ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>>, __gnu_cxx::__normal_iterator<const ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>> &, __gnu_cxx::__normal_iterator<const ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>>>>(__gnu_cxx::__normal_iterator<ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>> &&, __gnu_cxx::__normal_iterator<const ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>> &, __gnu_cxx::__normal_iterator<const ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>> &&);
//END
//= instance
template void cura::PointsSet::insert<<__gnu_cxx::__normal_iterator<ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>>, int, ClipperLib::IntPoint &>>(__gnu_cxx::__normal_iterator<ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>> &&, int &&, ClipperLib::IntPoint &);
//END
//= instance
template void cura::PointsSet::insert<<__gnu_cxx::__normal_iterator<ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>>, std::reverse_iterator<__gnu_cxx::__normal_iterator<const ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>>> &, std::reverse_iterator<__gnu_cxx::__normal_iterator<const ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>>>>>(__gnu_cxx::__normal_iterator<ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>> &&, std::reverse_iterator<__gnu_cxx::__normal_iterator<const ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>>> &, std::reverse_iterator<__gnu_cxx::__normal_iterator<const ClipperLib::IntPoint *, std::vector<ClipperLib::IntPoint, std::allocator<ClipperLib::IntPoint>>>> &&);
//END
