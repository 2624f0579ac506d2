// What the functions of this unit compute.
#ifndef UTILS_SPARSE_POINT_GRID_INCLUSIVE_H
#define UTILS_SPARSE_POINT_GRID_INCLUSIVE_H
#include <cassert>
#include <unordered_map>
#include <vector>
#include "utils/SparsePointGrid.h"
#include "geometry/Point2LL.h"
namespace cura
{
namespace SparsePointGridInclusiveImpl
{
template<class Val>
struct SparsePointGridInclusiveElem
{
    SparsePointGridInclusiveElem()
    {
    }
    SparsePointGridInclusiveElem(const Point2LL& point_, const Val& val_)
        : point(point_)
        , val(val_)
    {
    }
    Point2LL point;
    Val val;
};
template<class T>
struct Locatoror
{
//= cura::SparsePointGridInclusiveImpl::Locatoror::operator()
    Point2LL operator()(const SparsePointGridInclusiveElem<T>& elem)
    {
        return elem.point;
    }
//END
};
}
template<class Val>
class SparsePointGridInclusive : public SparsePointGrid<SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<Val>, SparsePointGridInclusiveImpl::Locatoror<Val>>
{
public:
    using Base = SparsePointGrid<SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<Val>, SparsePointGridInclusiveImpl::Locatoror<Val>>;
    SparsePointGridInclusive(coord_t cell_size, size_t elem_reserve = 0U, double max_load_factor = 1.0);
    void insert(const Point2LL& point, const Val& val);
    std::vector<Val> getNearbyVals(const Point2LL& query_pt, coord_t radius) const;
};
#define SG_TEMPLATE template<class Val>
#define SG_THIS SparsePointGridInclusive<Val>
SG_TEMPLATE
//= cura::SparsePointGridInclusive::SparsePointGridInclusive
SG_THIS::SparsePointGridInclusive(coord_t cell_size, size_t elem_reserve, double max_load_factor)
    : Base(cell_size, elem_reserve, max_load_factor)
{
}
//END
SG_TEMPLATE
//= cura::SparsePointGridInclusive::insert
void SG_THIS::insert(const Point2LL& point, const Val& val)
{
    typename SG_THIS::Elem elem(point, val);
    Base::insert(elem);
}
//END
SG_TEMPLATE
//= skip cura::SparsePointGridInclusive::getNearbyVals
std::vector<Val> SG_THIS::getNearbyVals(const Point2LL& query_pt, coord_t radius) const
{
    std::vector<Val> ret;
    std::function<bool(const SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<Val>&)> process_func = [&ret](const typename SG_THIS::Elem& elem)
    {
        ret.push_back(elem.val);
        return true;
    };
    this->processNearby(query_pt, radius, process_func);
    return ret;
}
//END
#undef SG_TEMPLATE
#undef SG_THIS
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template struct cura::SparsePointGridInclusive<BrimLineReference>;
//END
//= instance
template struct cura::SparsePointGridInclusive<cura::PathOrdering<const cura::OpenPolyline *> *>;
//END
//= instance
template struct cura::SparsePointGridInclusive<cura::PathOrdering<const cura::Polyline *> *>;
//END
//= instance
template struct cura::SparsePointGridInclusive<cura::Point2F>;
//END
//= instance
template struct cura::SparsePointGridInclusive<std::pair<long long, float>>;
//END
//= instance
template struct cura::SparsePointGridInclusive<std::weak_ptr<cura::LightningTreeNode>>;
//END
//= instance
template struct cura::SparsePointGridInclusive<unsigned long>;
//END
//= instance
template struct cura::SparsePointGridInclusiveImpl::Locatoror<BrimLineReference>;
//END
//= instance
template struct cura::SparsePointGridInclusiveImpl::Locatoror<cura::PathOrdering<const cura::OpenPolyline *> *>;
//END
//= instance
template struct cura::SparsePointGridInclusiveImpl::Locatoror<cura::PathOrdering<const cura::Polyline *> *>;
//END
//= instance
template struct cura::SparsePointGridInclusiveImpl::Locatoror<cura::Point2F>;
//END
//= instance
template struct cura::SparsePointGridInclusiveImpl::Locatoror<std::pair<long long, float>>;
//END
//= instance
template struct cura::SparsePointGridInclusiveImpl::Locatoror<std::weak_ptr<cura::LightningTreeNode>>;
//END
//= instance
template struct cura::SparsePointGridInclusiveImpl::Locatoror<unsigned long>;
//END
