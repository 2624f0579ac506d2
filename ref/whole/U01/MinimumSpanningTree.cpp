// What the functions of this unit compute.
#include "utils/MinimumSpanningTree.h"
#include <algorithm>
#include <iterator>
namespace cura
{
//= cura::MinimumSpanningTree::prim
auto MinimumSpanningTree::prim(std::vector<Point2LL> vertices) const -> AdjacencyGraph_t
{
    AdjacencyGraph_t result;
    if (vertices.empty())
    {
        return result;
    }
    if (vertices.size() == 1)
    {
        result[*vertices.begin()];
        return result;
    }
    result.reserve(vertices.size());
    std::vector<Point2LL> vertices_list(vertices.begin(), vertices.end());
    std::unordered_map<const Point2LL*, coord_t> smallest_distance;
    std::unordered_map<const Point2LL*, const Point2LL*> smallest_distance_to;
    smallest_distance.reserve(vertices_list.size());
    smallest_distance_to.reserve(vertices_list.size());
    for (size_t vertex_index = 1; vertex_index < vertices_list.size(); vertex_index++)
    {
        const auto& vert = vertices_list[vertex_index];
        smallest_distance[&vert] = vSize2(vert - vertices_list[0]);
        smallest_distance_to[&vert] = &vertices_list[0];
    }
    while (result.size() < vertices_list.size())
    {
        using MapValue = std::pair<const Point2LL*, coord_t>;
        const auto closest = std::min_element(
            smallest_distance.begin(),
            smallest_distance.end(),
            [](const MapValue& a, const MapValue& b)
            {
                return a.second < b.second;
            });
        const Point2LL* closest_point = closest->first;
        const Point2LL other_end = *smallest_distance_to[closest_point];
        if (result.find(*closest_point) == result.end())
        {
            result[*closest_point] = std::vector<Edge>();
        }
        result[*closest_point].push_back({ *closest_point, other_end });
        if (result.find(other_end) == result.end())
        {
            result[other_end] = std::vector<Edge>();
        }
        result[other_end].push_back({ other_end, *closest_point });
        smallest_distance.erase(closest_point);
        smallest_distance_to.erase(closest_point);
        for (std::pair<const Point2LL*, coord_t> point_and_distance : smallest_distance)
        {
            const coord_t new_distance = vSize2(*closest_point - *point_and_distance.first);
            const coord_t old_distance = point_and_distance.second;
            if (new_distance < old_distance)
            {
                smallest_distance[point_and_distance.first] = new_distance;
                smallest_distance_to[point_and_distance.first] = closest_point;
            }
        }
    }
    return result;
}
//END
}
