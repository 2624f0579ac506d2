// What the functions of this unit compute.
#ifndef UTILS_SPARSE_POINT_GRID_H
#define UTILS_SPARSE_POINT_GRID_H
#include <cassert>
#include <unordered_map>
#include <vector>
#include "utils/SparseGrid.h"
#include "geometry/Point2LL.h"
namespace cura
{
template<class ElemT, class Locator>
class SparsePointGrid : public SparseGrid<ElemT>
{
public:
    using Elem = ElemT;
    SparsePointGrid(coord_t cell_size, size_t elem_reserve = 0U, double max_load_factor = 1.0);
    void insert(const Elem& elem);
    const ElemT* getAnyNearby(const Point2LL& query_pt, coord_t radius);
protected:
    using GridPoint = typename SparseGrid<ElemT>::GridPoint;
    Locator m_locator;
};
#define SGI_TEMPLATE template<class ElemT, class Locator>
#define SGI_THIS SparsePointGrid<ElemT, Locator>
SGI_TEMPLATE
//= cura::SparsePointGrid::SparsePointGrid
SGI_THIS::SparsePointGrid(coord_t cell_size, size_t elem_reserve, double max_load_factor)
    : SparseGrid<ElemT>(cell_size, elem_reserve, max_load_factor)
{
}
//END
SGI_TEMPLATE
//= cura::SparsePointGrid::insert
void SGI_THIS::insert(const Elem& elem)
{
    Point2LL loc = m_locator(elem);
    GridPoint grid_loc = SparseGrid<ElemT>::toGridPoint(loc);
    SparseGrid<ElemT>::grid_.emplace(grid_loc, elem);
}
//END
SGI_TEMPLATE
//= skip cura::SparsePointGrid::getAnyNearby
const ElemT* SGI_THIS::getAnyNearby(const Point2LL& query_pt, coord_t radius)
{
    const ElemT* ret = nullptr;
    const std::function<bool(const ElemT&)>& process_func = [&ret, query_pt, radius, this](const ElemT& maybe_nearby)
    {
        if (shorterThen(m_locator(maybe_nearby) - query_pt, radius))
        {
            ret = &maybe_nearby;
            return false;
        }
        return true;
    };
    SparseGrid<ElemT>::processNearby(query_pt, radius, process_func);
    return ret;
}
//END
#undef SGI_TEMPLATE
#undef SGI_THIS
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template struct cura::SparsePointGrid<StitchGridVal, StitchGridValLocator>;
//END
//= instance
template struct cura::SparsePointGrid<cura::PathsPointIndex<cura::OpenLinesSet>, cura::PathsPointIndexLocator<cura::OpenLinesSet>>;
//END
//= instance
template struct cura::SparsePointGrid<cura::PathsPointIndex<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>, cura::PathsPointIndexLocator<std::vector<cura::ExtrusionLine, std::allocator<cura::ExtrusionLine>>>>;
//END
//= instance
template struct cura::SparsePointGrid<cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<BrimLineReference>, cura::SparsePointGridInclusiveImpl::Locatoror<BrimLineReference>>;
//END
//= instance
template struct cura::SparsePointGrid<cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<cura::PathOrdering<const cura::OpenPolyline *> *>, cura::SparsePointGridInclusiveImpl::Locatoror<cura::PathOrdering<const cura::OpenPolyline *> *>>;
//END
//= instance
template struct cura::SparsePointGrid<cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<cura::PathOrdering<const cura::Polyline *> *>, cura::SparsePointGridInclusiveImpl::Locatoror<cura::PathOrdering<const cura::Polyline *> *>>;
//END
//= instance
template struct cura::SparsePointGrid<cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<cura::Point2F>, cura::SparsePointGridInclusiveImpl::Locatoror<cura::Point2F>>;
//END
//= instance
template struct cura::SparsePointGrid<cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<std::pair<long long, float>>, cura::SparsePointGridInclusiveImpl::Locatoror<std::pair<long long, float>>>;
//END
//= instance
template struct cura::SparsePointGrid<cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<std::weak_ptr<cura::LightningTreeNode>>, cura::SparsePointGridInclusiveImpl::Locatoror<std::weak_ptr<cura::LightningTreeNode>>>;
//END
//= instance
template struct cura::SparsePointGrid<cura::SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<unsigned long>, cura::SparsePointGridInclusiveImpl::Locatoror<unsigned long>>;
//END
