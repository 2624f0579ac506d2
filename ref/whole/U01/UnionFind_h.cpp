// What the functions of this unit compute.
#ifndef UNIONFIND_H
#define UNIONFIND_H
#include <assert.h>
#include <limits>
#include <stddef.h>
#include <vector>
#include <unordered_map>
namespace cura
{
template <typename E, class Hash = std::hash<E>>
class UnionFind
{
public:
//= cura::UnionFind::UnionFind
    UnionFind(const Hash& hash = Hash())
    {
        element_to_position = std::unordered_map<E, size_t, Hash>(10, hash);
    }
//END
//= cura::UnionFind::add
    size_t add(const E item)
    {
        items.push_back(item);
        size_t handle = parent_index.size();
        element_to_position[item] = handle;
        parent_index.push_back(handle);
        rank.push_back(1);
        return handle;
    }
//END
//= cura::UnionFind::find
    size_t find(const E& item)
    {
        const typename std::unordered_map<E, size_t, Hash>::const_iterator it = element_to_position.find(item);
        if (it == element_to_position.end())
        {
            return (size_t)-1;
        }
        const size_t index = it->second;
        return findByHandle(index);
    }
//END
//= cura::UnionFind::findByHandle
    size_t findByHandle(const size_t item_handle)
    {
        if (item_handle >= parent_index.size())
        {
            return (size_t)-1;
        }
        const size_t parent = parent_index[item_handle];
        if (parent != item_handle)
        {
            parent_index[item_handle] = findByHandle(parent);
        }
        return parent_index[item_handle];
    }
//END
//= cura::UnionFind::unite
    size_t unite(const size_t first, const size_t second)
    {
        const size_t first_root = findByHandle(first);
        const size_t second_root = findByHandle(second);
        if (rank[first_root] < rank[second_root])
        {
            parent_index[first_root] = second_root;
            rank[second_root] += rank[first_root];
            return second_root;
        }
        else
        {
            parent_index[second_root] = first_root;
            rank[first_root] += rank[second_root];
            return first_root;
        }
    }
//END
    using iterator = typename std::vector<E>::iterator;
    using const_iterator = typename std::vector<E>::iterator;
//= cura::UnionFind::begin
    iterator begin()
    {
        return items.begin();
    }
//END
//= cura::UnionFind::end
    iterator end()
    {
        return items.end();
    }
//END
//= skip cura::UnionFind::begin
    const_iterator begin() const
    {
        return items.begin();
    }
//END
//= skip cura::UnionFind::end
    const_iterator end() const
    {
        return items.end();
    }
//END
//= skip cura::UnionFind::cbegin
    const_iterator cbegin() const
    {
        return items.cbegin();
    }
//END
//= skip cura::UnionFind::cend
    const_iterator cend() const
    {
        return items.cend();
    }
//END
private:
    std::vector<E> items;
    std::unordered_map<E, size_t, Hash> element_to_position;
    std::vector<size_t> parent_index;
    std::vector<size_t> rank;
};
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template struct cura::UnionFind<cura::Infill::InfillLineSegment *, std::hash<cura::Infill::InfillLineSegment *>>;
//END
