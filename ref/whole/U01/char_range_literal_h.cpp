// What the functions of this unit compute.
#ifndef UTILS_TYPES_CHAR_RANGE_LITERAL_H
#define UTILS_TYPES_CHAR_RANGE_LITERAL_H
#include <algorithm>
namespace cura::utils
{
template<size_t N>
struct CharRangeLiteral
{
//= cura::utils::CharRangeLiteral::CharRangeLiteral
    constexpr CharRangeLiteral(const char (&str)[N]) noexcept
    {
        std::copy_n(str, N, value);
    }
//END
    char value[N];
};
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template struct cura::utils::CharRangeLiteral<2>;
//END
