// What the functions of this unit compute.
#include "mesh.h"
#include <numbers>
#include <spdlog/spdlog.h>
#include "utils/Point3D.h"
namespace cura
{
const int vertex_meld_distance = MM2INT(0.03);
static inline uint32_t pointHash(const Point3LL& p)
{
    return ((p.x_ + vertex_meld_distance / 2) / vertex_meld_distance) ^ (((p.y_ + vertex_meld_distance / 2) / vertex_meld_distance) << 10)
         ^ (((p.z_ + vertex_meld_distance / 2) / vertex_meld_distance) << 20);
}
//= cura::Mesh::findIndexOfVertex
int Mesh::findIndexOfVertex(const Point3LL& v)
{
    uint32_t hash = pointHash(v);
    for (unsigned int idx = 0; idx < vertex_hash_map_[hash].size(); idx++)
    {
        if ((vertices_[vertex_hash_map_[hash][idx]].p_ - v).testLength(vertex_meld_distance))
        {
            return vertex_hash_map_[hash][idx];
        }
    }
    vertex_hash_map_[hash].push_back(vertices_.size());
    vertices_.emplace_back(v);
    aabb_.include(v);
    return vertices_.size() - 1;
}
//END
}
