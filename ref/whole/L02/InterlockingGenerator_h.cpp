// What the functions of this unit compute.
#ifndef INTERLOCKING_GENERATOR_H
#define INTERLOCKING_GENERATOR_H
#include <cassert>
#include <unordered_set>
#include <vector>
#include "geometry/PointMatrix.h"
#include "geometry/Polygon.h"
#include "utils/VoxelUtils.h"
namespace cura
{
class Slicer;
class InterlockingGenerator
{
public:
    static void generateInterlockingStructure(std::vector<Slicer*>& volumes);
protected:
    void generateInterlockingStructure() const;
//= cura::InterlockingGenerator::InterlockingGenerator
    InterlockingGenerator(
        Slicer& mesh_a,
        Slicer& mesh_b,
        coord_t beam_width_a,
        coord_t beam_width_b,
        const PointMatrix& rotation,
        Point3LL cell_size,
        coord_t beam_layer_count,
        DilationKernel interface_dilation,
        DilationKernel air_dilation,
        bool air_filtering)
        : mesh_a_(mesh_a)
        , mesh_b_(mesh_b)
        , beam_width_a_(beam_width_a)
        , beam_width_b_(beam_width_b)
        , vu_(cell_size)
        , rotation_(rotation)
        , cell_size_(cell_size)
        , beam_layer_count_(beam_layer_count)
        , interface_dilation_(interface_dilation)
        , air_dilation_(air_dilation)
        , air_filtering_(air_filtering)
    {
    }
//END
    std::pair<Shape, Shape> growBorderAreasPerpendicular(const Shape& a, const Shape& b, const coord_t& detect) const;
    void handleThinAreas(const std::unordered_set<GridPoint3>& has_all_meshes) const;
    std::vector<std::unordered_set<GridPoint3>> getShellVoxels(const DilationKernel& kernel) const;
    void addBoundaryCells(const std::vector<Shape>& layers, const DilationKernel& kernel, std::unordered_set<GridPoint3>& cells) const;
    std::vector<Shape> computeUnionedVolumeRegions() const;
    std::vector<std::vector<Shape>> generateMicrostructure() const;
    void applyMicrostructureToOutlines(const std::unordered_set<GridPoint3>& cells, const std::vector<Shape>& layer_regions) const;
    static const coord_t ignored_gap_ = 100u;
    Slicer& mesh_a_;
    Slicer& mesh_b_;
    coord_t beam_width_a_;
    coord_t beam_width_b_;
    const VoxelUtils vu_;
    const PointMatrix rotation_;
    const Point3LL cell_size_;
    const coord_t beam_layer_count_;
    const DilationKernel interface_dilation_;
    const DilationKernel air_dilation_;
    const bool air_filtering_;
};
}
#endif
