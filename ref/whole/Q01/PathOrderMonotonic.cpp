// What the functions of this unit compute.
#include "PathOrderMonotonic.h"
#include <unordered_map>
#include <unordered_set>
#include "geometry/OpenPolyline.h"
namespace cura
{
//= cura::PathOrderMonotonic::optimize
template<typename PathType>
void PathOrderMonotonic<PathType>::optimize()
{
    if (this->paths_.empty())
    {
        return;
    }
    for (Path& path : this->paths_)
    {
        path.converted_ = &path.getVertexData();
    }
    std::vector<Path> reordered;
    reordered.reserve(this->paths_.size());
    std::vector<Path*> polylines;
    this->detectLoops();
    for (Path& path : this->paths_)
    {
        if (path.is_closed_ || path.vertices_->size() <= 1)
        {
            reordered.push_back(path);
        }
        else
        {
            polylines.push_back(&path);
            polylines.back()->start_vertex_ = polylines.back()->converted_->size();
        }
    }
    std::stable_sort(
        polylines.begin(),
        polylines.end(),
        [this](Path* a, Path* b)
        {
            const double a_start_projection = projectToMonotonicVector(a->converted_->front());
            const double a_end_projection = projectToMonotonicVector(a->converted_->back());
            const double a_projection = std::min(a_start_projection, a_end_projection);
            const double b_start_projection = projectToMonotonicVector(b->converted_->front());
            const double b_end_projection = projectToMonotonicVector(b->converted_->back());
            const double b_projection = std::min(b_start_projection, b_end_projection);
            return a_projection < b_projection;
        });
    if (interlaced_)
    {
        std::vector<Path*> lines_pass1;
        std::vector<Path*> lines_pass2;
        lines_pass1.reserve(polylines.size() / 2);
        lines_pass2.reserve(polylines.size() / 2);
        std::vector<Path*>* current_pass = nullptr;
        double current_projection = 0;
        for (Path* path : polylines)
        {
            const double path_projection = projectToMonotonicVector(path->converted_->front());
            if (current_pass == nullptr)
            {
                current_pass = &lines_pass1;
                current_projection = path_projection;
            }
            else if ((path_projection - current_projection) > (max_adjacent_distance_ / 2))
            {
                current_pass = current_pass == &lines_pass1 ? &lines_pass2 : &lines_pass1;
                current_projection = path_projection;
            }
            current_pass->push_back(path);
        }
        std::vector<Path> ordered_lines_pass1 = makeOrderedPath(lines_pass1, max_adjacent_distance_ * 2);
        std::vector<Path> ordered_lines_pass2 = makeOrderedPath(lines_pass2, max_adjacent_distance_ * 2);
        reordered.insert(reordered.begin(), std::make_move_iterator(ordered_lines_pass1.begin()), std::make_move_iterator(ordered_lines_pass1.end()));
        reordered.insert(reordered.begin(), std::make_move_iterator(ordered_lines_pass2.begin()), std::make_move_iterator(ordered_lines_pass2.end()));
    }
    else
    {
        std::vector<Path> lines_ordered = makeOrderedPath(polylines, max_adjacent_distance_);
        reordered.insert(reordered.begin(), std::make_move_iterator(lines_ordered.begin()), std::make_move_iterator(lines_ordered.end()));
    }
    std::swap(reordered, this->paths_);
}
//END
//= cura::PathOrderMonotonic::findPolylineString
template<typename PathType>
std::deque<typename PathOrderMonotonic<PathType>::Path*> PathOrderMonotonic<PathType>::findPolylineString(Path* polyline, const SparsePointGridInclusive<Path*>& line_bucket_grid)
{
    std::deque<Path*> result;
    if (polyline->converted_->empty())
    {
        return result;
    }
    result.push_back(polyline);
    polyline->start_vertex_ = 0;
    Point2LL first_endpoint = polyline->converted_->front();
    Point2LL last_endpoint = polyline->converted_->back();
    std::vector<SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<Path*>> lines_before = line_bucket_grid.getNearby(first_endpoint, coincident_point_distance_);
    auto close_line_before = std::find_if(
        lines_before.begin(),
        lines_before.end(),
        [first_endpoint](SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<Path*> found_path)
        {
            return canConnectToPolyline(first_endpoint, found_path);
        });
    std::vector<SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<Path*>> lines_after = line_bucket_grid.getNearby(last_endpoint, coincident_point_distance_);
    auto close_line_after = std::find_if(
        lines_after.begin(),
        lines_after.end(),
        [last_endpoint](SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<Path*> found_path)
        {
            return canConnectToPolyline(last_endpoint, found_path);
        });
    while (close_line_before != lines_before.end())
    {
        Path* first = close_line_before->val;
        result.push_front(first);
        size_t farthest_vertex = getFarthestEndpoint(first, close_line_before->point);
        first->start_vertex_ = farthest_vertex;
        first->backwards_ = farthest_vertex != 0;
        first_endpoint = (*first->converted_)[farthest_vertex];
        lines_before = line_bucket_grid.getNearby(first_endpoint, coincident_point_distance_);
        close_line_before = std::find_if(
            lines_before.begin(),
            lines_before.end(),
            [first_endpoint](SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<Path*> found_path)
            {
                return canConnectToPolyline(first_endpoint, found_path);
            });
    }
    while (close_line_after != lines_after.end())
    {
        Path* last = close_line_after->val;
        result.push_back(last);
        size_t farthest_vertex = getFarthestEndpoint(last, close_line_after->point);
        last->start_vertex_ = (farthest_vertex == 0) ? last->converted_->size() - 1 : 0;
        last->backwards_ = farthest_vertex != 0;
        last_endpoint = (*last->converted_)[farthest_vertex];
        lines_after = line_bucket_grid.getNearby(last_endpoint, coincident_point_distance_);
        close_line_after = std::find_if(
            lines_after.begin(),
            lines_after.end(),
            [last_endpoint](SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<Path*> found_path)
            {
                return canConnectToPolyline(last_endpoint, found_path);
            });
    }
    const double first_projection = projectToMonotonicVector(first_endpoint);
    const double last_projection = projectToMonotonicVector(last_endpoint);
    if (last_projection < first_projection)
    {
        std::reverse(result.begin(), result.end());
        for (Path* path : result)
        {
            path->start_vertex_ = (path->start_vertex_ == 0) ? path->converted_->size() - 1 : 0;
            path->backwards_ = ! path->backwards_;
        }
    }
    if (result.size() == 1)
    {
        result[0]->start_vertex_ = result[0]->converted_->size();
    }
    return result;
}
//END
//= cura::PathOrderMonotonic::getOverlappingLines
template<typename PathType>
std::vector<typename PathOrderMonotonic<PathType>::Path*> PathOrderMonotonic<PathType>::getOverlappingLines(
    const typename std::vector<Path*>::const_iterator& polyline_it,
    const Point2D& perpendicular,
    const std::vector<Path*>& polylines,
    const coord_t max_adjacent_distance)
{
    const double start_monotonic = projectToMonotonicVector((*polyline_it)->converted_->front());
    const double end_monotonic = projectToMonotonicVector((*polyline_it)->converted_->back());
    const double my_farthest_monotonic = std::max(start_monotonic, end_monotonic);
    const double my_closest_monotonic = std::min(start_monotonic, end_monotonic);
    const double my_farthest_monotonic_padded = my_farthest_monotonic + max_adjacent_distance;
    const double my_closest_monotonic_padded = my_closest_monotonic - max_adjacent_distance;
    const double my_start = projectToVector((*polyline_it)->converted_->front(), perpendicular);
    const double my_end = projectToVector((*polyline_it)->converted_->back(), perpendicular);
    const double my_farthest = std::max(my_start, my_end);
    const double my_closest = std::min(my_start, my_end);
    const double my_farthest_padded = my_farthest + max_adjacent_distance;
    const double my_closest_padded = my_closest - max_adjacent_distance;
    std::vector<Path*> overlapping_lines;
    for (auto overlapping_line = polyline_it + 1; overlapping_line != polylines.end(); ++overlapping_line)
    {
        const double start_their_projection = projectToMonotonicVector((*overlapping_line)->converted_->front());
        const double end_their_projection = projectToMonotonicVector((*overlapping_line)->converted_->back());
        const double their_farthest_projection = std::max(start_their_projection, end_their_projection);
        const double their_closest_projection = std::min(start_their_projection, end_their_projection);
        if (their_closest_projection > my_farthest_monotonic_padded || my_closest_monotonic_padded > their_farthest_projection)
        {
            break;
        }
        const double their_start = projectToVector((*overlapping_line)->converted_->front(), perpendicular);
        const double their_end = projectToVector((*overlapping_line)->converted_->back(), perpendicular);
        const double their_farthest = std::max(their_start, their_end);
        const double their_closest = std::min(their_start, their_end);
        if ((my_closest_padded >= their_closest && my_closest_padded <= their_farthest) || (my_farthest_padded >= their_closest && my_farthest_padded <= their_farthest)
            || (their_closest >= my_closest_padded && their_farthest <= my_farthest_padded))
        {
            overlapping_lines.push_back(*overlapping_line);
        }
    }
    return overlapping_lines;
}
//END
//= cura::PathOrderMonotonic::makeOrderedPath
template<typename PathType>
std::vector<typename PathOrderMonotonic<PathType>::Path> PathOrderMonotonic<PathType>::makeOrderedPath(const std::vector<Path*>& polylines, const coord_t max_adjacent_distance)
{
    std::vector<Path> reordered;
    reordered.reserve(polylines.size());
    SparsePointGridInclusive<Path*> line_bucket_grid(MM2INT(2));
    for (Path* polyline : polylines)
    {
        if (! polyline->converted_->empty())
        {
            line_bucket_grid.insert(polyline->converted_->front(), polyline);
            line_bucket_grid.insert(polyline->converted_->back(), polyline);
        }
    }
    const Point2D perpendicular = monotonic_vector_.rotated90CCW();
    std::unordered_set<Path*> connected_lines;
    std::unordered_set<Path*> starting_lines;
    std::unordered_map<Path*, Path*> connections;
    for (auto polyline_it = polylines.begin(); polyline_it != polylines.end(); polyline_it++)
    {
        if (connections.contains(*polyline_it))
        {
            continue;
        }
        std::deque<Path*> polystring = findPolylineString(*polyline_it, line_bucket_grid);
        if (polystring.size() > 1)
        {
            starting_lines.insert(polystring[0]);
            for (size_t i = 0; i < polystring.size() - 1; ++i)
            {
                connections[polystring[i]] = polystring[i + 1];
                connected_lines.insert(polystring[i + 1]);
                const std::vector<Path*> overlapping_lines
                    = getOverlappingLines(std::find(polylines.begin(), polylines.end(), polystring[i]), perpendicular, polylines, max_adjacent_distance);
                for (Path* overlapping_line : overlapping_lines)
                {
                    if (std::find(polystring.begin(), polystring.end(), overlapping_line)
                        == polystring.end())
                    {
                        starting_lines.insert(overlapping_line);
                        starting_lines.insert(polystring[i + 1]);
                    }
                }
            }
        }
        else
        {
            if (! connected_lines.contains(*polyline_it))
            {
                starting_lines.insert(*polyline_it);
            }
            const std::vector<Path*> overlapping_lines = getOverlappingLines(polyline_it, perpendicular, polylines, max_adjacent_distance);
            if (overlapping_lines.size() == 1)
            {
                connections[*polyline_it] = overlapping_lines[0];
                if (connected_lines.contains(overlapping_lines[0]))
                {
                    starting_lines.insert(overlapping_lines[0]);
                }
                else
                {
                    connected_lines.insert(overlapping_lines[0]);
                }
            }
            else
            {
                for (Path* overlapping_line : overlapping_lines)
                {
                    starting_lines.insert(overlapping_line);
                }
            }
        }
    }
    struct LineProjections
    {
        coord_t min;
        coord_t max;
//= LineProjections::LineProjections
        explicit LineProjections(Path* path, const Point2D& monotonic_vector)
        {
            const coord_t start_projection = std::llround(projectToVector(path->converted_->front(), monotonic_vector) / precision_factor);
            const coord_t end_projection = std::llround(projectToVector(path->converted_->back(), monotonic_vector) / precision_factor);
            std::tie(min, max) = std::minmax(start_projection, end_projection);
        }
//END
//= LineProjections::operator<
        bool operator<(const LineProjections& other) const
        {
            return min < other.min || (min == other.min && max < other.max);
        }
//END
    };
    std::multimap<LineProjections, Path*> pre_ordered_lines;
    for (Path* starting_line : starting_lines)
    {
        pre_ordered_lines.insert(std::make_pair(LineProjections(starting_line, monotonic_vector_), starting_line));
    }
    Point2LL current_pos = this->start_point_;
    while (! pre_ordered_lines.empty())
    {
        const LineProjections first_projection_key = pre_ordered_lines.begin()->first;
        auto lines_on_row_range = pre_ordered_lines.equal_range(first_projection_key);
        coord_t closest_distance = std::numeric_limits<coord_t>::max();
        auto closest_next_line_iterator = lines_on_row_range.second;
        bool closest_backwards = false;
        for (auto iterator = lines_on_row_range.first; iterator != lines_on_row_range.second; ++iterator)
        {
            const Path* path = iterator->second;
            const coord_t dist_start = vSize2(current_pos - path->converted_->front());
            const coord_t dist_end = vSize2(current_pos - path->converted_->back());
            if (dist_start < closest_distance)
            {
                closest_next_line_iterator = iterator;
                closest_distance = dist_start;
                closest_backwards = false;
            }
            if (dist_end < closest_distance)
            {
                closest_next_line_iterator = iterator;
                closest_distance = dist_end;
                closest_backwards = true;
            }
        }
        Path* closest_path = closest_next_line_iterator->second;
        setStartVertex(closest_path, closest_backwards);
        current_pos = (*closest_path->converted_)[closest_path->converted_->size() - 1 - closest_path->start_vertex_];
        reordered.push_back(*closest_path);
        pre_ordered_lines.erase(closest_next_line_iterator);
        auto connection = connections.find(closest_path);
        std::unordered_map<Path*, Path*> checked_connections;
        auto checked_connection = checked_connections.find(closest_path);
        while (connection != connections.end()
               && starting_lines.find(connection->second) == starting_lines.end()
               && (checked_connection == checked_connections.end()
                   || checked_connection->second != connection->second))
        {
            checked_connections.insert({ connection->first, connection->second });
            Path* line = connection->second;
            optimizeClosestStartPoint(line, current_pos);
            reordered.push_back(*line);
            connection = connections.find(line);
            checked_connection = checked_connections.find(line);
        }
    }
    return reordered;
}
//END
template void PathOrderMonotonic<const Polyline*>::optimize();
template void PathOrderMonotonic<const OpenPolyline*>::optimize();
}
