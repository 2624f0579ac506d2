// What the functions of this unit compute.
#ifndef PATH_ADAPTER_H
#define PATH_ADAPTER_H
#include <stddef.h>
#include "geometry/Point2LL.h"
#include "utils/Coord_t.h"
namespace cura
{
template<typename PathType>
class PathAdapter
{
public:
//= cura::PathAdapter::PathAdapter
    PathAdapter(const PathType& path, const coord_t fixed_line_width = 0)
        : path_(path)
        , fixed_line_width_(fixed_line_width)
    {
    }
//END
    bool empty() const
    {
        return path_.empty();
    }
    size_t size() const
    {
        return path_.size();
    }
    coord_t length() const
    {
        return path_.length();
    }
    const Point2LL& pointAt(size_t index) const;
    coord_t lineWidthAt(size_t index) const;
    const PathType& getPath() const
    {
        return path_;
    }
private:
    const PathType& path_;
    const coord_t fixed_line_width_;
};
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template struct cura::PathAdapter<cura::ExtrusionLine>;
//END
//= instance
template struct cura::PathAdapter<cura::Polygon>;
//END
