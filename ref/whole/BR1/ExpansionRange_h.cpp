// What the functions of this unit compute.
#ifndef BRIDGE_EXPANSIONRANGE_H
#define BRIDGE_EXPANSIONRANGE_H
#include <optional>
#include "bridge/TransformedSegment.h"
namespace cura
{
struct SegmentOverlapping;
class ExpansionRange
{
public:
//= cura::ExpansionRange::ExpansionRange
    ExpansionRange(const TransformedSegment& segment, const TransformedSegment* supporting_segment)
        : data_{ .segment = segment }
        , supporting_segment_(supporting_segment)
        , is_projected_(true)
    {
    }
//END
//= cura::ExpansionRange::ExpansionRange
    ExpansionRange(const coord_t min_y, const coord_t max_y, const TransformedSegment* expanded_segment)
        : data_{ .range = { .min_y = min_y, .max_y = max_y } }
        , supporting_segment_(expanded_segment)
        , is_projected_(false)
    {
    }
//END
    coord_t minY() const
    {
        return is_projected_ ? data_.segment.minY() : data_.range.min_y;
    }
    coord_t maxY() const
    {
        return is_projected_ ? data_.segment.maxY() : data_.range.max_y;
    }
    std::optional<SegmentOverlapping> calculateOverlapping(const TransformedSegment& other, const int8_t expand_direction) const;
    void cropTop(const coord_t new_max_y)
    {
        if (is_projected_)
        {
            data_.segment.cropTop(new_max_y);
        }
        else
        {
            data_.range.max_y = new_max_y;
        }
    }
    void cropBottom(const coord_t new_min_y)
    {
        if (is_projected_)
        {
            data_.segment.cropBottom(new_min_y);
        }
        else
        {
            data_.range.min_y = new_min_y;
        }
    }
    bool isValid() const
    {
        return fuzzy_not_equal(maxY(), minY());
    }
    void setProjectedEnd(const Point2LL& end)
    {
        data_.segment.setEnd(end);
    }
    const TransformedSegment* getSupportingSegment() const
    {
        return supporting_segment_;
    }
    bool isProjected() const
    {
        return is_projected_;
    }
    const TransformedSegment& getProjectedSegment() const
    {
        return data_.segment;
    }
private:
    union
    {
        TransformedSegment segment;
        struct
        {
            coord_t min_y;
            coord_t max_y;
        } range;
    } data_;
    const TransformedSegment* supporting_segment_;
    bool is_projected_;
};
}
#endif
