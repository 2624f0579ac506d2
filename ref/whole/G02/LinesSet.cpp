// What the functions of this unit compute.
#include "geometry/LinesSet.h"
#include <cassert>
#include <numeric>
#include "geometry/ClosedLinesSet.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
namespace cura
{
//= cura::LinesSet::checkAdd
template<class LineType>
bool LinesSet<LineType>::checkAdd(const LineType& line, CheckNonEmptyParam check_non_empty)
{
    switch (check_non_empty)
    {
    case CheckNonEmptyParam::EvenIfEmpty:
        return true;
    case CheckNonEmptyParam::OnlyIfNotEmpty:
        return ! line.empty();
    case CheckNonEmptyParam::OnlyIfValid:
        return line.isValid();
    }
    return false;
}
//END
//= cura::LinesSet::push_back
template<class LineType>
void LinesSet<LineType>::push_back(const LineType& line, CheckNonEmptyParam check_non_empty)
{
    if (checkAdd(line, check_non_empty))
    {
        lines_.push_back(line);
    }
}
//END
//= cura::LinesSet::push_back
template<class LineType>
void LinesSet<LineType>::push_back(LineType&& line, CheckNonEmptyParam check_non_empty)
{
    if (checkAdd(line, check_non_empty))
    {
        lines_.push_back(std::move(line));
    }
}
//END
//= cura::LinesSet::push_back
template<class LineType>
template<class OtherLineType>
void LinesSet<LineType>::push_back(LinesSet<OtherLineType>&& lines_set)
{
    lines_.insert(lines_.end(), std::make_move_iterator(lines_set.begin()), std::make_move_iterator(lines_set.end()));
}
//END
//= cura::LinesSet::pointCount
template<class LineType>
size_t LinesSet<LineType>::pointCount() const
{
    return std::accumulate(
        lines_.begin(),
        lines_.end(),
        0ULL,
        [](size_t total, const LineType& line)
        {
            return total + line.size();
        });
}
//END
template<class LineType>
void LinesSet<LineType>::removeAt(size_t index)
{
    if (lines_.size() == 1)
    {
        lines_.clear();
    }
    else if (lines_.size() > 1)
    {
        assert(index < lines_.size());
        if (index < lines_.size() - 1)
        {
            lines_[index] = std::move(lines_.back());
        }
        lines_.resize(lines_.size() - 1);
    }
}
//= cura::LinesSet::splitIntoSegments
template<class LineType>
void LinesSet<LineType>::splitIntoSegments(OpenLinesSet& result) const
{
    for (const LineType& line : lines_)
    {
        line.splitIntoSegments(result);
    }
}
//END
//= cura::LinesSet::splitIntoSegments
template<class LineType>
OpenLinesSet LinesSet<LineType>::splitIntoSegments() const
{
    OpenLinesSet result;
    for (const LineType& line : lines_)
    {
        line.splitIntoSegments(result);
    }
    return result;
}
//END
//= cura::LinesSet::length
template<class LineType>
coord_t LinesSet<LineType>::length() const
{
    return std::accumulate(
        lines_.begin(),
        lines_.end(),
        0LL,
        [](coord_t total, const LineType& line)
        {
            return total += line.length();
        });
}
//END
//= cura::LinesSet::translate
template<class LineType>
void LinesSet<LineType>::translate(const Point2LL& delta)
{
    if (delta.X != 0 || delta.Y != 0)
    {
        for (LineType& line : getLines())
        {
            line.translate(delta);
        }
    }
}
//END
//= cura::LinesSet::applyMatrix
template<class LineType>
void LinesSet<LineType>::applyMatrix(const PointMatrix& matrix)
{
    for (LineType& line : *this)
    {
        line.applyMatrix(matrix);
    }
}
//END
//= cura::LinesSet::applyMatrix
template<class LineType>
void LinesSet<LineType>::applyMatrix(const Point3Matrix& matrix)
{
    for (LineType& line : *this)
    {
        line.applyMatrix(matrix);
    }
}
//END
template<>
Shape LinesSet<ClosedPolyline>::offset(coord_t distance, ClipperLib::JoinType join_type, double miter_limit) const
{
    if (empty())
    {
        return {};
    }
    if (distance == 0)
    {
        Shape result;
        for (const ClosedPolyline& line : getLines())
        {
            result.emplace_back(line.getPoints(), line.isExplicitlyClosed());
        }
        return result;
    }
    ClipperLib::Paths ret;
    ClipperLib::ClipperOffset clipper(miter_limit, 10.0);
    addPaths(clipper, join_type, ClipperLib::etClosedLine);
    clipper.MiterLimit = miter_limit;
    clipper.Execute(ret, static_cast<double>(distance));
    return Shape{ std::move(ret) };
}
template<>
Shape LinesSet<Polygon>::offset(coord_t distance, ClipperLib::JoinType join_type, double miter_limit) const
{
    if (empty())
    {
        return {};
    }
    if (distance == 0)
    {
        return { getLines() };
    }
    ClipperLib::Paths ret;
    ClipperLib::ClipperOffset clipper(miter_limit, 10.0);
    Shape(getLines()).unionPolygons().addPaths(clipper, join_type, ClipperLib::etClosedPolygon);
    clipper.MiterLimit = miter_limit;
    clipper.Execute(ret, static_cast<double>(distance));
    return Shape{ std::move(ret) };
}
template<>
Shape LinesSet<OpenPolyline>::offset(coord_t distance, ClipperLib::JoinType join_type, double miter_limit) const
{
    if (empty() || distance == 0)
    {
        return {};
    }
    ClipperLib::ClipperOffset clipper(miter_limit, 10.0);
    const ClipperLib::EndType end_type{ join_type == ClipperLib::jtMiter ? ClipperLib::etOpenSquare : ClipperLib::etOpenRound };
    addPaths(clipper, join_type, end_type);
    clipper.MiterLimit = miter_limit;
    ClipperLib::Paths result_paths;
    clipper.Execute(result_paths, static_cast<double>(distance));
    return Shape{ std::move(result_paths) };
}
//= cura::LinesSet::removeDegenerateVerts
template<class LineType>
void LinesSet<LineType>::removeDegenerateVerts()
{
    for (size_t poly_idx = 0; poly_idx < lines_.size(); poly_idx++)
    {
        LineType& poly = lines_[poly_idx];
        const bool for_polyline = (dynamic_cast<OpenPolyline*>(&poly) != nullptr);
        ClipperLib::Path result;
        auto is_degenerate = [](const Point2LL& last, const Point2LL& now, const Point2LL& next)
        {
            Point2LL last_line = now - last;
            Point2LL next_line = next - now;
            return dot(last_line, next_line) == -1 * vSize(last_line) * vSize(next_line);
        };
        const size_t start_vertex = for_polyline ? 1 : 0;
        const size_t end_vertex = for_polyline ? poly.size() - 1 : poly.size();
        for (size_t i = 0; i < start_vertex; ++i)
        {
            result.push_back(poly[i]);
        }
        bool is_changed = false;
        for (size_t idx = start_vertex; idx < end_vertex; idx++)
        {
            const Point2LL& last = (result.size() == 0) ? poly.back() : result.back();
            if (idx + 1 >= poly.size() && result.size() == 0)
            {
                break;
            }
            const Point2LL& next = (idx + 1 >= poly.size()) ? result[0] : poly[idx + 1];
            if (is_degenerate(last, poly[idx], next))
            {
                is_changed = true;
                while (result.size() > 1 && is_degenerate(result[result.size() - 2], result.back(), next))
                {
                    result.pop_back();
                }
            }
            else
            {
                result.push_back(poly[idx]);
            }
        }
        for (size_t i = end_vertex; i < poly.size(); ++i)
        {
            result.push_back(poly[i]);
        }
        if (is_changed)
        {
            if (for_polyline || result.size() > 2)
            {
                poly.setPoints(std::move(result));
            }
            else
            {
                removeAt(poly_idx);
                poly_idx--;
            }
        }
    }
}
//END
//= cura::LinesSet::addPaths
template<class LineType>
void LinesSet<LineType>::addPaths(ClipperLib::Clipper& clipper, ClipperLib::PolyType poly_typ) const
{
    for (const LineType& line : getLines())
    {
        line.addPath(clipper, poly_typ);
    }
}
//END
//= cura::LinesSet::addPaths
template<class LineType>
void LinesSet<LineType>::addPaths(ClipperLib::ClipperOffset& clipper, ClipperLib::JoinType joint_type, ClipperLib::EndType endType) const
{
    for (const LineType& line : getLines())
    {
        clipper.AddPath(line.getPoints(), joint_type, endType);
    }
}
//END
template size_t LinesSet<OpenPolyline>::pointCount() const;
template void LinesSet<OpenPolyline>::removeAt(size_t index);
template void LinesSet<OpenPolyline>::splitIntoSegments(OpenLinesSet& result) const;
template OpenLinesSet LinesSet<OpenPolyline>::splitIntoSegments() const;
template coord_t LinesSet<OpenPolyline>::length() const;
template void LinesSet<OpenPolyline>::translate(const Point2LL& delta);
template void LinesSet<OpenPolyline>::applyMatrix(const PointMatrix& matrix);
template void LinesSet<OpenPolyline>::applyMatrix(const Point3Matrix& matrix);
template void LinesSet<OpenPolyline>::removeDegenerateVerts();
template void LinesSet<OpenPolyline>::addPaths(ClipperLib::Clipper& clipper, ClipperLib::PolyType PolyTyp) const;
template void LinesSet<OpenPolyline>::addPaths(ClipperLib::ClipperOffset& clipper, ClipperLib::JoinType jointType, ClipperLib::EndType endType) const;
template void LinesSet<OpenPolyline>::push_back(const OpenPolyline& line, CheckNonEmptyParam checkNonEmpty);
template void LinesSet<OpenPolyline>::push_back(OpenPolyline&& line, CheckNonEmptyParam checkNonEmpty);
template void LinesSet<OpenPolyline>::push_back(LinesSet<OpenPolyline>&& lines_set);
template size_t LinesSet<ClosedPolyline>::pointCount() const;
template void LinesSet<ClosedPolyline>::removeAt(size_t index);
template void LinesSet<ClosedPolyline>::splitIntoSegments(OpenLinesSet& result) const;
template OpenLinesSet LinesSet<ClosedPolyline>::splitIntoSegments() const;
template coord_t LinesSet<ClosedPolyline>::length() const;
template void LinesSet<ClosedPolyline>::translate(const Point2LL& delta);
template void LinesSet<ClosedPolyline>::applyMatrix(const PointMatrix& matrix);
template void LinesSet<ClosedPolyline>::applyMatrix(const Point3Matrix& matrix);
template void LinesSet<ClosedPolyline>::removeDegenerateVerts();
template void LinesSet<ClosedPolyline>::addPaths(ClipperLib::Clipper& clipper, ClipperLib::PolyType PolyTyp) const;
template void LinesSet<ClosedPolyline>::addPaths(ClipperLib::ClipperOffset& clipper, ClipperLib::JoinType jointType, ClipperLib::EndType endType) const;
template void LinesSet<ClosedPolyline>::push_back(const ClosedPolyline& line, CheckNonEmptyParam checkNonEmpty);
template void LinesSet<ClosedPolyline>::push_back(ClosedPolyline&& line, CheckNonEmptyParam checkNonEmpty);
template void LinesSet<ClosedPolyline>::push_back(LinesSet<Polygon>&& lines_set);
template size_t LinesSet<Polygon>::pointCount() const;
template void LinesSet<Polygon>::removeAt(size_t index);
template void LinesSet<Polygon>::splitIntoSegments(OpenLinesSet& result) const;
template OpenLinesSet LinesSet<Polygon>::splitIntoSegments() const;
template coord_t LinesSet<Polygon>::length() const;
template void LinesSet<Polygon>::translate(const Point2LL& delta);
template void LinesSet<Polygon>::applyMatrix(const PointMatrix& matrix);
template void LinesSet<Polygon>::applyMatrix(const Point3Matrix& matrix);
template void LinesSet<Polygon>::removeDegenerateVerts();
template void LinesSet<Polygon>::addPaths(ClipperLib::Clipper& clipper, ClipperLib::PolyType PolyTyp) const;
template void LinesSet<Polygon>::addPaths(ClipperLib::ClipperOffset& clipper, ClipperLib::JoinType jointType, ClipperLib::EndType endType) const;
template void LinesSet<Polygon>::push_back(const Polygon& line, CheckNonEmptyParam checkNonEmpty);
template void LinesSet<Polygon>::push_back(Polygon&& line, CheckNonEmptyParam checkNonEmpty);
template void LinesSet<Polygon>::push_back(LinesSet<Polygon>&& lines_set);
}
