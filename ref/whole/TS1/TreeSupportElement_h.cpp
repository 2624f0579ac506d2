// What the functions of this unit compute.
#ifndef TREESUPPORTELEMENT_H
#define TREESUPPORTELEMENT_H
#include <map>
#include <unordered_map>
#include <boost/container_hash/hash.hpp>
#include "TreeModelVolumes.h"
#include "TreeSupportBaseCircle.h"
#include "TreeSupportEnums.h"
#include "geometry/Shape.h"
#include "settings/types/LayerIndex.h"
#include "utils/Coord_t.h"
namespace cura
{
class OBJ;
struct AreaIncreaseSettings
{
    AreaIncreaseSettings() = default;
    AreaIncreaseSettings(const AvoidanceType type, const coord_t increase_speed, const bool increase_radius, const bool simplify, const bool use_min_distance, const bool move)
        : type_(type)
        , increase_speed_(increase_speed)
        , increase_radius_(increase_radius)
        , no_error_(simplify)
        , use_min_distance_(use_min_distance)
        , move_(move)
    {
    }
    AvoidanceType type_{ AvoidanceType::FAST };
    coord_t increase_speed_{ 0 };
    bool increase_radius_{ false };
    bool no_error_{ false };
    bool use_min_distance_{ false };
    bool move_{ false };
    bool operator==(const AreaIncreaseSettings& other) const = default;
};
struct TreeSupportElement
{
    TreeSupportElement(
        coord_t distance_to_top,
        size_t target_height,
        Point2LL target_position,
        bool to_buildplate,
        bool to_model_gracious,
        bool use_min_xy_dist,
        size_t dont_move_until,
        bool supports_roof,
        bool can_use_safe_radius,
        bool force_tips_to_roof,
        bool skip_ovalisation,
        bool influence_area_limit_active,
        coord_t influence_area_limit_range);
    TreeSupportElement(const TreeSupportElement& elem, Shape* newArea = nullptr);
    TreeSupportElement(TreeSupportElement* element_above);
    TreeSupportElement(
        const TreeSupportElement& first,
        const TreeSupportElement& second,
        size_t next_height,
        Point2LL next_position,
        coord_t increased_to_model_radius,
        const std::function<coord_t(size_t, double)>& getRadius,
        double diameter_scale_bp_radius,
        coord_t branch_radius,
        double diameter_angle_scale_factor);
    bool operator==(const TreeSupportElement& other) const
    {
        return target_position_ == other.target_position_ && target_height_ == other.target_height_;
    }
    bool operator<(const TreeSupportElement& other) const
    {
        return ! (*this == other) && ! (*this > other);
    }
    bool operator>(const TreeSupportElement& other) const
    {
        if (*this == other)
        {
            return false;
        }
        if (other.target_height_ != target_height_)
        {
            return other.target_height_ < target_height_;
        }
        return other.target_position_.X == target_position_.X ? other.target_position_.Y < target_position_.Y : other.target_position_.X < target_position_.X;
    }
    void AddParents(const std::vector<TreeSupportElement*>& adding);
    void RecreateInfluenceLimitArea();
    void setToBuildplateForAllParents(bool new_value);
    inline bool isResultOnLayerSet() const
    {
        return result_on_layer_ != Point2LL(-1, -1);
    }
    void saveToObj(OBJ& obj, const coord_t z, const coord_t layer_height) const;
    LayerIndex target_height_;
    Point2LL target_position_;
    Point2LL next_position_;
    LayerIndex next_height_;
    size_t effective_radius_height_;
    bool to_buildplate_;
    std::vector<TreeSupportElement*> parents_;
    size_t distance_to_top_;
    Shape* area_;
    Point2LL result_on_layer_ = Point2LL(-1, -1);
    coord_t increased_to_model_radius_;
    bool to_model_gracious_;
    double buildplate_radius_increases_;
    bool use_min_xy_dist_;
    bool supports_roof_;
    size_t dont_move_until_;
    bool can_use_safe_radius_;
    AreaIncreaseSettings last_area_increase_;
    size_t missing_roof_layers_;
    bool skip_ovalisation_;
    std::vector<Point2LL> all_tips_;
    bool influence_area_limit_active_;
    coord_t influence_area_limit_range_;
    Shape influence_area_limit_area_;
    std::vector<Point2LL> additional_ovalization_targets_;
};
}
namespace std
{
template<>
struct hash<cura::TreeSupportElement>
{
//= std::hash::operator()
    size_t operator()(const cura::TreeSupportElement& node) const
    {
        size_t hash_node = hash<cura::Point2LL>()(node.target_position_);
        boost::hash_combine(hash_node, size_t(node.target_height_));
        return hash_node;
    }
//END
};
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template struct std::hash<cura::TreeSupportElement>;
//END
