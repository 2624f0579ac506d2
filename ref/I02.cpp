// Lightning infill.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "Application.h"
#include "ExtruderTrain.h"
#include "Slice.h"
#include "geometry/LinesSet.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "infill/LightningDistanceField.h"
#include "infill/LightningGenerator.h"
#include "infill/LightningLayer.h"
#include "infill/LightningTreeNode.h"
#include "sliceDataStorage.h"
#include "utils/SparsePointGridInclusive.h"
#include "utils/SquareGrid.h"
#include "utils/linearAlg2D.h"
#include "utils/polygonUtils.h"
#include <functional>
#include <iterator> // advance
#include <list>
#include <memory>
#include <optional>
#include <unordered_map>
#include <vector>
#include "infill/LightningDistanceField.h"
#include "infill/LightningGenerator.h"
#include "infill/LightningLayer.h"
#include "infill/LightningTreeNode.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::LightningDistanceField::tryGetNextPoint
bool r2(const cura::LightningDistanceField& self, Point2LL* p)
{
    if (self.unsupported_points_.empty())
    {
        return false;
    }
    *p = self.unsupported_points_.front().loc_;
    return true;
}

//= cura::LightningDistanceField::update
namespace n3
{
using GridPoint = cura::LightningDistanceField::GridPoint;
using UnsupCell = cura::LightningDistanceField::UnsupCell;
void r3(cura::LightningDistanceField& self, const Point2LL& to_node, const Point2LL& added_leaf)
{
    auto process_func = [added_leaf, &self](const SquareGrid::GridPoint& grid_loc)
    {
        auto it = self.unsupported_points_grid_.find(grid_loc);
        if (it != self.unsupported_points_grid_.end())
        {
            std::list<UnsupCell>::iterator& list_it = it->second;
            UnsupCell& cell = *list_it;
            if (shorterThen(cell.loc_ - added_leaf, self.supporting_radius_))
            {
                self.unsupported_points_.erase(list_it);
                self.unsupported_points_grid_.erase(it);
            }
        }
        return true;
    };
    const Point2LL a = to_node;
    const Point2LL b = added_leaf;
    Point2LL ab = b - a;
    Point2LL ab_T = turn90CCW(ab);
    Point2LL extent = normal(ab_T, self.supporting_radius_);
    self.grid_.processLineCells(
        std::make_pair(a + extent, a - extent),
        [&self, ab, extent, &process_func](const SquareGrid::GridPoint& p)
        {
            self.grid_.processLineCells(std::make_pair(p, p + ab), process_func);
            return true;
        });
    self.grid_.processNearby(added_leaf, self.supporting_radius_, process_func);
}
} // namespace n3

//= cura::LightningGenerator::LightningGenerator
void r4(cura::LightningGenerator& self, const SliceMeshStorage& mesh)
{
    const auto infill_extruder = mesh.settings.get<ExtruderTrain&>("infill_extruder_nr");
    const auto layer_thickness = infill_extruder.settings_.get<coord_t>(
        "layer_height"); 
    const auto infill_line_width = infill_extruder.settings_.get<coord_t>("infill_line_width");
    const auto infill_wall_line_count = static_cast<coord_t>(mesh.settings.get<size_t>("infill_wall_line_count"));
    const auto line_distance = infill_extruder.settings_.get<coord_t>("infill_line_distance");
    const auto overhang_angle = infill_extruder.settings_.get<AngleRadians>("lightning_infill_overhang_angle");
    const auto prune_angle = infill_extruder.settings_.get<AngleRadians>("lightning_infill_prune_angle");
    const auto straightening_angle = infill_extruder.settings_.get<AngleRadians>("lightning_infill_straightening_angle");
    std::vector<Shape> areas_per_layer;
    areas_per_layer.reserve(mesh.layers.size());
    for (const SliceLayer& current_layer : mesh.layers)
    {
        Shape infill_area_here;
        for (auto& part : current_layer.parts)
        {
            infill_area_here.push_back(part.getOwnInfillArea());
        }
        areas_per_layer.push_back(infill_area_here);
    }
    self.generate(layer_thickness, infill_line_width, infill_wall_line_count, line_distance, overhang_angle, prune_angle, straightening_angle, areas_per_layer);
}

//= cura::LightningGenerator::LightningGenerator
void r5(cura::LightningGenerator& self, const SupportStorage& support)
{
    if (! support.generated)
    {
        return;
    }
    const Settings& settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const auto support_extruder = settings.get<ExtruderTrain&>("support_extruder_nr");
    const Settings& extruder_settings = support_extruder.settings_;
    const auto layer_thickness = extruder_settings.get<coord_t>("support_infill_sparse_thickness");
    const auto infill_line_width = extruder_settings.get<coord_t>("support_line_width");
    const auto infill_wall_thickness = settings.get<coord_t>("support_wall_thickness");
    const auto line_distance = extruder_settings.get<coord_t>("support_line_distance");
    const auto overhang_angle = extruder_settings.get<AngleRadians>("support_lightning_overhang_angle");
    const auto prune_angle = extruder_settings.get<AngleRadians>("support_lightning_prune_angle");
    const auto straightening_angle = extruder_settings.get<AngleRadians>("support_lightning_straightening_angle");
    std::vector<Shape> areas_per_layer;
    areas_per_layer.reserve(support.supportLayers.size());
    for (const SupportLayer& support_layer : support.supportLayers)
    {
        Shape supper_area_here;
        for (const SupportInfillPart& part : support_layer.support_infill_parts)
        {
            supper_area_here.push_back(part.infill_area_per_combine_per_density_.front().front());
        }
        areas_per_layer.push_back(supper_area_here);
    }
    self.generate(layer_thickness, infill_line_width, infill_wall_thickness, line_distance, overhang_angle, prune_angle, straightening_angle, areas_per_layer);
}

//= cura::LightningGenerator::generateInitialInternalOverhangs
void r6(cura::LightningGenerator& self, const coord_t infill_wall_thickness, const std::vector<Shape>& shape_per_layer)
{
    self.overhang_per_layer.resize(shape_per_layer.size());
    const coord_t infill_wall_offset = -infill_wall_thickness;
    Shape infill_area_above;
    for (const auto& [layer_nr, layer_shape] : shape_per_layer | ranges::views::enumerate | ranges::views::reverse)
    {
        Shape infill_area_here = layer_shape.offset(infill_wall_offset);
        Shape overhang = infill_area_here.offset(-self.wall_supporting_radius).difference(infill_area_above);
        self.overhang_per_layer[layer_nr] = overhang;
        infill_area_above = std::move(infill_area_here);
    }
}

//= cura::LightningGenerator::getTreesForLayer
const LightningLayer& r7(const cura::LightningGenerator& self, const size_t& layer_id)
{
    return self.lightning_layers[layer_id];
}

//= cura::LightningGenerator::generate
void r8(cura::LightningGenerator& self, const coord_t layer_thickness, const coord_t line_width, const coord_t wall_thickness, const coord_t line_distance, const AngleRadians& overhang_angle, const AngleRadians& prune_angle, const AngleRadians& straightening_angle, const std::vector<Shape>& shape_per_layer)
{
    self.supporting_radius = std::max(line_distance, line_width) / 2;
    self.wall_supporting_radius = layer_thickness * std::tan(overhang_angle);
    self.prune_length = layer_thickness * std::tan(prune_angle);
    self.straightening_max_distance = layer_thickness * std::tan(straightening_angle);
    self.generateInitialInternalOverhangs(wall_thickness, shape_per_layer);
    self.generateTrees(wall_thickness, shape_per_layer);
}

//= cura::LightningGenerator::generateTrees
void r9(cura::LightningGenerator& self, const coord_t infill_wall_thickness, const std::vector<Shape>& shape_per_layer)
{
    self.lightning_layers.resize(shape_per_layer.size());
    const coord_t infill_wall_offset = -infill_wall_thickness;
    std::vector<Shape> infill_outlines;
    infill_outlines.insert(infill_outlines.end(), shape_per_layer.size(), Shape());
    for (const auto& [layer_nr, layer_shape] : shape_per_layer | ranges::views::enumerate | ranges::views::reverse)
    {
        infill_outlines[layer_nr].push_back(layer_shape.offset(infill_wall_offset));
    }
    const size_t top_layer_id = shape_per_layer.size() - 1;
    auto outlines_locator_ptr = PolygonUtils::createLocToLineGrid(infill_outlines[top_layer_id], locator_cell_size);
    for (int layer_id = top_layer_id; layer_id >= 0; layer_id--)
    {
        LightningLayer& current_lightning_layer = self.lightning_layers[layer_id];
        Shape& current_outlines = infill_outlines[layer_id];
        const auto& outlines_locator = *outlines_locator_ptr;
        std::vector<LightningTreeNodeSPtr> to_be_reconnected_tree_roots = current_lightning_layer.tree_roots;
        current_lightning_layer.generateNewTrees(self.overhang_per_layer[layer_id], current_outlines, outlines_locator, self.supporting_radius, self.wall_supporting_radius);
        current_lightning_layer.reconnectRoots(to_be_reconnected_tree_roots, current_outlines, outlines_locator, self.supporting_radius, self.wall_supporting_radius);
        if (layer_id == 0)
        {
            return;
        }
        const Shape& below_outlines = infill_outlines[layer_id - 1];
        outlines_locator_ptr = PolygonUtils::createLocToLineGrid(below_outlines, locator_cell_size);
        const auto& below_outlines_locator = *outlines_locator_ptr;
        std::vector<LightningTreeNodeSPtr>& lower_trees = self.lightning_layers[layer_id - 1].tree_roots;
        for (auto& tree : current_lightning_layer.tree_roots)
        {
            tree->propagateToNextLayer(lower_trees, below_outlines, below_outlines_locator, self.prune_length, self.straightening_max_distance, locator_cell_size / 2);
        }
    }
}

//= cura::LightningLayer::getWeightedDistance
coord_t r10(cura::LightningLayer& self, const Point2LL& boundary_loc, const Point2LL& unsupported_location)
{
    return vSize(boundary_loc - unsupported_location);
}

//= cura::GroundingLocation::p
Point2LL r11(const cura::GroundingLocation& self)
{
    if (self.tree_node != nullptr)
    {
        return self.tree_node->getLocation();
    }
    else
    {
        return self.boundary_location->p();
    }
}

//= cura::LightningLayer::generateNewTrees
void r13(cura::LightningLayer& self, const Shape& current_overhang, const Shape& current_outlines, const LocToLineGrid& outlines_locator, const coord_t supporting_radius, const coord_t wall_supporting_radius)
{
    LightningDistanceField distance_field(supporting_radius, current_outlines, current_overhang);
    SparseLightningTreeNodeGrid tree_node_locator(locator_cell_size);
    self.fillLocator(tree_node_locator);
    Point2LL unsupported_location;
    while (distance_field.tryGetNextPoint(&unsupported_location))
    {
        GroundingLocation grounding_loc
            = self.getBestGroundingLocation(unsupported_location, current_outlines, outlines_locator, supporting_radius, wall_supporting_radius, tree_node_locator);
        LightningTreeNodeSPtr new_parent;
        LightningTreeNodeSPtr new_child;
        self.attach(unsupported_location, grounding_loc, new_child, new_parent);
        tree_node_locator.insert(new_child->getLocation(), new_child);
        if (new_parent)
        {
            tree_node_locator.insert(new_parent->getLocation(), new_parent);
        }
        distance_field.update(grounding_loc.p(), unsupported_location);
    }
}

//= cura::LightningLayer::getBestGroundingLocation
GroundingLocation r14(cura::LightningLayer& self, const Point2LL& unsupported_location, const Shape& current_outlines, const LocToLineGrid& outline_locator, const coord_t supporting_radius, const coord_t wall_supporting_radius, const SparseLightningTreeNodeGrid& tree_node_locator, const LightningTreeNodeSPtr& exclude_tree)
{
    ClosestPointPolygon cpp = PolygonUtils::findClosest(unsupported_location, current_outlines);
    Point2LL node_location = cpp.p();
    const coord_t within_dist = vSize(node_location - unsupported_location);
    PolygonsPointIndex dummy;
    LightningTreeNodeSPtr sub_tree{ nullptr };
    coord_t current_dist = self.getWeightedDistance(node_location, unsupported_location);
    if (current_dist >= wall_supporting_radius) 
    {
        auto candidate_trees = tree_node_locator.getNearbyVals(unsupported_location, std::min(current_dist, within_dist));
        for (auto& candidate_wptr : candidate_trees)
        {
            auto candidate_sub_tree = candidate_wptr.lock();
            if ((candidate_sub_tree && candidate_sub_tree != exclude_tree) && ! (exclude_tree && exclude_tree->hasOffspring(candidate_sub_tree))
                && ! PolygonUtils::polygonCollidesWithLineSegment(unsupported_location, candidate_sub_tree->getLocation(), outline_locator, &dummy))
            {
                const coord_t candidate_dist = candidate_sub_tree->getWeightedDistance(unsupported_location, supporting_radius);
                if (candidate_dist < current_dist)
                {
                    current_dist = candidate_dist;
                    sub_tree = candidate_sub_tree;
                }
            }
        }
    }
    if (! sub_tree)
    {
        return GroundingLocation{ nullptr, cpp };
    }
    else
    {
        return GroundingLocation{ sub_tree, std::optional<ClosestPointPolygon>() };
    }
}

//= cura::LightningLayer::attach
bool r15(cura::LightningLayer& self, const Point2LL& unsupported_location, const GroundingLocation& grounding_loc, LightningTreeNodeSPtr& new_child, LightningTreeNodeSPtr& new_root)
{
    if (grounding_loc.boundary_location)
    {
        new_root = LightningTreeNode::create(grounding_loc.p(), std::make_optional(grounding_loc.p()));
        new_child = new_root->addChild(unsupported_location);
        self.tree_roots.push_back(new_root);
        return true;
    }
    else
    {
        new_child = grounding_loc.tree_node->addChild(unsupported_location);
        return false;
    }
}

//= cura::LightningLayer::convertToLines
OpenLinesSet r17(const cura::LightningLayer& self, const Shape& limit_to_outline, const coord_t line_width)
{
    OpenLinesSet result_lines;
    if (self.tree_roots.empty())
    {
        return result_lines;
    }
    for (const LightningTreeNodeSPtr& tree : self.tree_roots)
    {
        tree->convertToPolylines(result_lines, line_width);
    }
    result_lines = limit_to_outline.intersection(result_lines);
    return result_lines;
}

//= cura::LightningTreeNode::getWeightedDistance
coord_t r18(const cura::LightningTreeNode& self, const Point2LL& unsupported_location, const coord_t& supporting_radius)
{
    constexpr coord_t min_valence_for_boost = 0;
    constexpr coord_t max_valence_for_boost = 4;
    constexpr coord_t valence_boost_multiplier = 4;
    const size_t valence = (! self.is_root_) + self.children_.size();
    const coord_t valence_boost = (min_valence_for_boost < valence && valence < max_valence_for_boost) ? valence_boost_multiplier * supporting_radius : 0;
    const coord_t dist_here = vSize(self.getLocation() - unsupported_location);
    return dist_here - valence_boost;
}

//= cura::LightningTreeNode::getLocation
const Point2LL& r20(const cura::LightningTreeNode& self)
{
    return self.p_;
}

//= cura::LightningTreeNode::setLocation
void r21(cura::LightningTreeNode& self, const Point2LL& loc)
{
    self.p_ = loc;
}

//= cura::LightningTreeNode::addChild
namespace n22
{
using LightningTreeNodeSPtr = cura::LightningTreeNode::LightningTreeNodeSPtr;
LightningTreeNodeSPtr r22(cura::LightningTreeNode& self, const Point2LL& child_loc)
{
    LightningTreeNodeSPtr child = LightningTreeNode::create(child_loc);
    return self.addChild(child);
}
} // namespace n22

//= cura::LightningTreeNode::propagateToNextLayer
namespace n24
{
using LightningTreeNodeSPtr = cura::LightningTreeNode::LightningTreeNodeSPtr;
void r24(const cura::LightningTreeNode& self, std::vector<LightningTreeNodeSPtr>& next_trees, const Shape& next_outlines, const LocToLineGrid& outline_locator, const coord_t prune_distance, const coord_t smooth_magnitude, const coord_t max_remove_colinear_dist)
{
    auto tree_below = self.deepCopy();
    tree_below->prune(prune_distance);
    tree_below->straighten(smooth_magnitude, max_remove_colinear_dist);
    if (tree_below->realign(next_outlines, outline_locator, next_trees))
    {
        next_trees.push_back(tree_below);
    }
}
} // namespace n24

//= cura::LightningTreeNode::visitBranches
void r25(const cura::LightningTreeNode& self, const std::function<void(const Point2LL&, const Point2LL&)>& visitor)
{
    for (const auto& node : self.children_)
    {
        visitor(self.p_, node->p_);
        node->visitBranches(visitor);
    }
}

//= cura::LightningTreeNode::LightningTreeNode
void r27(cura::LightningTreeNode& self, const Point2LL& p, const std::optional<Point2LL>& last_grounding_location)
{
        member(self.is_root_) = true;
        member(self.p_) = p;
        member(self.last_grounding_location_) = last_grounding_location;
}

//= cura::LightningTreeNode::straighten
void r32(cura::LightningTreeNode& self, const coord_t magnitude, const coord_t max_remove_colinear_dist)
{
    self.straighten(magnitude, self.p_, 0, max_remove_colinear_dist * max_remove_colinear_dist);
}

//= cura::LightningTreeNode::getLastGroundingLocation
const std::optional<Point2LL>& r35(const cura::LightningTreeNode& self)
{
    return self.last_grounding_location_;
}

//= cura::LightningTreeNode::convertToPolylines
void r36(const cura::LightningTreeNode& self, OpenLinesSet& output, const coord_t line_width)
{
    OpenLinesSet result;
    result.emplace_back();
    self.convertToPolylines(0, result);
    self.removeJunctionOverlap(result, line_width);
    output.push_back(result);
}

//= cura::LightningTreeNode::convertToPolylines
void r37(const cura::LightningTreeNode& self, size_t long_line_idx, OpenLinesSet& output)
{
    if (self.children_.empty())
    {
        output[long_line_idx].push_back(self.p_);
        return;
    }
    size_t first_child_idx = rand() % self.children_.size();
    self.children_[first_child_idx]->convertToPolylines(long_line_idx, output);
    output[long_line_idx].push_back(self.p_);
    for (size_t idx_offset = 1; idx_offset < self.children_.size(); idx_offset++)
    {
        size_t child_idx = (first_child_idx + idx_offset) % self.children_.size();
        const LightningTreeNode& child = *self.children_[child_idx];
        output.emplace_back();
        size_t child_line_idx = output.size() - 1;
        child.convertToPolylines(child_line_idx, output);
        output[child_line_idx].push_back(self.p_);
    }
}

//= cura::LightningDistanceField::UnsupCell::UnsupCell
void r39(cura::LightningDistanceField::UnsupCell& self, SquareGrid::GridPoint loc, coord_t dist_to_boundary)
{
member(self.loc_) = loc;
member(self.dist_to_boundary_) = dist_to_boundary;
}

//= cura::LightningTreeNode::isRoot
bool r46(const cura::LightningTreeNode& self)
{
    return self.is_root_;
}

//END
}  // namespace ref
