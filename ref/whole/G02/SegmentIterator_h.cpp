// What the functions of this unit compute.
#ifndef GEOMETRY_SEGMENT_ITERATOR_H
#define GEOMETRY_SEGMENT_ITERATOR_H
#include "geometry/Point2LL.h"
namespace cura
{
enum class ConstnessType
{
    Const,
    Modifiable,
};
template<ConstnessType IsConst>
struct SegmentIterator
{
    struct Segment
    {
        using PointType = std::conditional_t<IsConst == ConstnessType::Const, const Point2LL, Point2LL>;
        PointType& start;
        PointType& end;
    };
    using iterator_category = std::random_access_iterator_tag;
    using value_type = Segment;
    using difference_type = std::ptrdiff_t;
    using pointer = Segment*;
    using reference = Segment&;
    using source_iterator_type = std::conditional_t<IsConst == ConstnessType::Const, typename std::vector<Point2LL>::const_iterator, typename std::vector<Point2LL>::iterator>;
private:
    source_iterator_type current_pos_;
    source_iterator_type begin_;
    source_iterator_type before_end_;
public:
    SegmentIterator(source_iterator_type pos, source_iterator_type begin, source_iterator_type end)
        : current_pos_(pos)
        , begin_(begin)
        , before_end_(end != begin ? std::prev(end) : end)
    {
    }
    Segment operator*() const
    {
        if (current_pos_ == before_end_)
        {
            return Segment{ *current_pos_, *begin_ };
        }
        return Segment{ *current_pos_, *std::next(current_pos_) };
    }
    SegmentIterator& operator++()
    {
        current_pos_++;
        return *this;
    }
    SegmentIterator& operator--()
    {
        current_pos_--;
        return *this;
    }
//= cura::SegmentIterator::operator+=
    SegmentIterator& operator+=(difference_type difference)
    {
        current_pos_ += difference;
        return *this;
    }
//END
    bool operator==(const SegmentIterator& other) const
    {
        return current_pos_ == other.current_pos_;
    }
    bool operator!=(const SegmentIterator& other) const
    {
        return ! (*this == other);
    }
//= skip cura::operator-
    friend difference_type operator-(const SegmentIterator<IsConst>& iterator1, const SegmentIterator<IsConst>& iterator2)
    {
        return iterator1.current_pos_ - iterator2.current_pos_;
    }
//END
};
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template struct cura::SegmentIterator<cura::ConstnessType::Const>;
//END
