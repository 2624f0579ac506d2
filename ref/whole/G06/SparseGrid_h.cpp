// What the functions of this unit compute.
#ifndef UTILS_SPARSE_GRID_H
#define UTILS_SPARSE_GRID_H
#include <cassert>
#include <functional>
#include <unordered_map>
#include <vector>
#include "utils/SquareGrid.h"
#include "geometry/Point2LL.h"
namespace cura
{
template<class ElemT>
class SparseGrid : public SquareGrid
{
public:
    using Elem = ElemT;
    using GridPoint = SquareGrid::GridPoint;
    using grid_coord_t = SquareGrid::grid_coord_t;
    using GridMap = std::unordered_multimap<GridPoint, Elem>;
    using iterator = typename GridMap::iterator;
    using const_iterator = typename GridMap::const_iterator;
    SparseGrid(coord_t cell_size, size_t elem_reserve = 0U, double max_load_factor = 1.0);
//= skip cura::SparseGrid::begin
    iterator begin()
    {
        return grid_.begin();
    }
//END
//= skip cura::SparseGrid::end
    iterator end()
    {
        return grid_.end();
    }
//END
//= skip cura::SparseGrid::begin
    const_iterator begin() const
    {
        return grid_.begin();
    }
//END
//= skip cura::SparseGrid::end
    const_iterator end() const
    {
        return grid_.end();
    }
//END
    std::vector<Elem> getNearby(const Point2LL& query_pt, coord_t radius) const;
    static const std::function<bool(const Elem&)> no_precondition;
    bool getNearest(const Point2LL& query_pt, coord_t radius, Elem& elem_nearest, const std::function<bool(const Elem& elem)> precondition = no_precondition) const;
    bool processNearby(const Point2LL& query_pt, coord_t radius, const std::function<bool(const ElemT&)>& process_func) const;
    bool processLine(const std::pair<Point2LL, Point2LL> query_line, const std::function<bool(const Elem&)>& process_elem_func) const;
protected:
    bool processFromCell(const GridPoint& grid_pt, const std::function<bool(const Elem&)>& process_func) const;
    GridMap grid_;
};
#define SGI_TEMPLATE template<class ElemT>
#define SGI_THIS SparseGrid<ElemT>
SGI_TEMPLATE
//= skip cura::SparseGrid::SparseGrid
SGI_THIS::SparseGrid(coord_t cell_size, size_t elem_reserve, double max_load_factor)
    : SquareGrid(cell_size)
{
    grid_.max_load_factor(max_load_factor);
    if (elem_reserve != 0U)
    {
        grid_.reserve(elem_reserve);
    }
}
//END
SGI_TEMPLATE
//= skip cura::SparseGrid::processFromCell
bool SGI_THIS::processFromCell(const GridPoint& grid_pt, const std::function<bool(const Elem&)>& process_func) const
{
    auto grid_range = grid_.equal_range(grid_pt);
    for (auto iter = grid_range.first; iter != grid_range.second; ++iter)
    {
        if (! process_func(iter->second))
        {
            return false;
        }
    }
    return true;
}
//END
SGI_TEMPLATE
//= skip cura::SparseGrid::processNearby
bool SGI_THIS::processNearby(const Point2LL& query_pt, coord_t radius, const std::function<bool(const Elem&)>& process_func) const
{
    return SquareGrid::processNearby(
        query_pt,
        radius,
        [&process_func, this](const GridPoint& grid_pt)
        {
            return processFromCell(grid_pt, process_func);
        });
}
//END
SGI_TEMPLATE
bool SGI_THIS::processLine(const std::pair<Point2LL, Point2LL> query_line, const std::function<bool(const Elem&)>& process_elem_func) const
{
    const std::function<bool(const GridPoint&)> process_cell_func = [&process_elem_func, this](GridPoint grid_loc)
    {
        return processFromCell(grid_loc, process_elem_func);
    };
    return processLineCells(query_line, process_cell_func);
}
SGI_TEMPLATE
//= skip cura::SparseGrid::getNearby
std::vector<typename SGI_THIS::Elem> SGI_THIS::getNearby(const Point2LL& query_pt, coord_t radius) const
{
    std::vector<Elem> ret;
    const std::function<bool(const Elem&)> process_func = [&ret](const Elem& elem)
    {
        ret.push_back(elem);
        return true;
    };
    processNearby(query_pt, radius, process_func);
    return ret;
}
//END
SGI_TEMPLATE
const std::function<bool(const typename SGI_THIS::Elem&)> SGI_THIS::no_precondition = [](const typename SGI_THIS::Elem&)
{
    return true;
};
SGI_TEMPLATE
bool SGI_THIS::getNearest(const Point2LL& query_pt, coord_t radius, Elem& elem_nearest, const std::function<bool(const Elem& elem)> precondition) const
{
    bool found = false;
    int64_t best_dist2 = static_cast<int64_t>(radius) * radius;
    const std::function<bool(const Elem&)> process_func = [&query_pt, &elem_nearest, &found, &best_dist2, &precondition](const Elem& elem)
    {
        if (! precondition(elem))
        {
            return true;
        }
        int64_t dist2 = vSize2(elem.point - query_pt);
        if (dist2 < best_dist2)
        {
            found = true;
            elem_nearest = elem;
            best_dist2 = dist2;
        }
        return true;
    };
    processNearby(query_pt, radius, process_func);
    return found;
}
#undef SGI_TEMPLATE
#undef SGI_THIS
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template struct cura::SparseGrid<StitchGridVal>;
//END
//= instance
template struct cura::SparseGrid<cura::PathsPointIndex<cura::OpenLinesSet>>;
//END
//= instance
template struct cura::SparseGrid<cura::PathsPointIndex<cura::Shape>>;
//END
//= instance
template struct cura::SparseGrid<cura::PathsPointIndex<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>>;
//END
//= instance
template struct cura::SparseGrid<cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<BrimLineReference>>;
//END
//= instance
template struct cura::SparseGrid<cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<cura::PathOrdering<const cura::OpenPolyline *> *>>;
//END
//= instance
template struct cura::SparseGrid<cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<cura::PathOrdering<const cura::Polyline *> *>>;
//END
//= instance
template struct cura::SparseGrid<cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<cura::Point2F>>;
//END
//= instance
template struct cura::SparseGrid<cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<std::pair<long long, float>>>;
//END
//= instance
template struct cura::SparseGrid<cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<std::weak_ptr<cura::LightningTreeNode>>>;
//END
//= instance
template struct cura::SparseGrid<cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<unsigned long>>;
//END
