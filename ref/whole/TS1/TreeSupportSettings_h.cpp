// What the functions of this unit compute.
#ifndef TREESUPPORTSETTINGS_H
#define TREESUPPORTSETTINGS_H
#include <functional>
#include "TreeSupportElement.h"
#include "TreeSupportEnums.h"
#include "settings/EnumSettings.h"
#include "settings/Settings.h"
#include "settings/types/Angle.h"
#include "settings/types/Ratio.h"
#include "utils/Coord_t.h"
#include "utils/Simplify.h"
#include "utils/math.h"
namespace cura
{
struct TreeSupportSettings
{
    TreeSupportSettings() = default;
//= cura::TreeSupportSettings::TreeSupportSettings
    TreeSupportSettings(const Settings& mesh_group_settings)
        : angle(mesh_group_settings.get<AngleRadians>("support_tree_angle"))
        , angle_slow(mesh_group_settings.get<AngleRadians>("support_tree_angle_slow"))
        , support_line_width(mesh_group_settings.get<coord_t>("support_line_width"))
        , layer_height(mesh_group_settings.get<coord_t>("layer_height"))
        , branch_radius(mesh_group_settings.get<coord_t>("support_tree_branch_diameter") / 2)
        , min_radius(mesh_group_settings.get<coord_t>("support_tree_tip_diameter") / 2)
        ,
        max_radius(mesh_group_settings.get<coord_t>("support_tree_max_diameter") / 2)
        , maximum_move_distance((angle < TAU / 4) ? std::llround(tan(angle) * layer_height) : std::numeric_limits<coord_t>::max())
        , maximum_move_distance_slow((angle_slow < TAU / 4) ? std::llround(tan(angle_slow) * layer_height) : std::numeric_limits<coord_t>::max())
        , support_bottom_layers(mesh_group_settings.get<bool>("support_bottom_enable") ? round_divide(mesh_group_settings.get<coord_t>("support_bottom_height"), layer_height) : 0)
        , tip_layers(std::max(std::max((branch_radius - min_radius) / (support_line_width / 3), branch_radius / layer_height), 1LL))
        ,
        diameter_angle_scale_factor(sin(mesh_group_settings.get<AngleRadians>("support_tree_branch_diameter_angle")) * layer_height / branch_radius)
        , max_to_model_radius_increase(mesh_group_settings.get<coord_t>("support_tree_max_diameter_increase_by_merges_when_support_to_model") / 2)
        , min_dtt_to_model(round_up_divide(mesh_group_settings.get<coord_t>("support_tree_min_height_to_model"), layer_height))
        , increase_radius_until_radius(mesh_group_settings.get<coord_t>("support_tree_branch_diameter") / 2)
        , increase_radius_until_dtt(
              increase_radius_until_radius <= branch_radius ? tip_layers * (increase_radius_until_radius / branch_radius)
                                                            : (increase_radius_until_radius - branch_radius) / (branch_radius * diameter_angle_scale_factor))
        , support_rests_on_model(mesh_group_settings.get<ESupportType>("support_type") == ESupportType::EVERYWHERE)
        , support_rest_preference(
              (support_rests_on_model && mesh_group_settings.get<std::string>("support_tree_rest_preference") == "graceful") ? RestPreference::GRACEFUL
                                                                                                                             : RestPreference::BUILDPLATE)
        , xy_distance(mesh_group_settings.get<coord_t>("support_xy_distance"))
        , bp_radius(mesh_group_settings.get<coord_t>("support_tree_bp_diameter") / 2)
        , diameter_scale_bp_radius(std::min(sin(0.7) * static_cast<double>(layer_height) / static_cast<double>(branch_radius), 1.0 / (branch_radius / (support_line_width / 2.0))))
        ,
        support_overrides(mesh_group_settings.get<SupportDistPriority>("support_xy_overrides_z"))
        , xy_min_distance(support_overrides == SupportDistPriority::Z_OVERRIDES_XY ? mesh_group_settings.get<coord_t>("support_xy_distance_overhang") : xy_distance)
        , z_distance_top(mesh_group_settings.get<coord_t>("support_top_distance"))
        , z_distance_top_layers(round_up_divide(z_distance_top, layer_height))
        , z_distance_bottom_layers(round_up_divide(mesh_group_settings.get<coord_t>("support_bottom_distance"), layer_height))
        , support_infill_angles(mesh_group_settings.get<std::vector<AngleDegrees>>("support_infill_angles"))
        , support_roof_angles(mesh_group_settings.get<std::vector<AngleDegrees>>("support_roof_angles"))
        , roof_pattern(mesh_group_settings.get<EFillMethod>("support_roof_pattern"))
        , support_pattern(mesh_group_settings.get<EFillMethod>("support_pattern"))
        , support_roof_line_width(mesh_group_settings.get<coord_t>("support_roof_line_width"))
        , support_line_distance(mesh_group_settings.get<coord_t>("support_line_distance"))
        , support_bottom_offset(mesh_group_settings.get<coord_t>("support_bottom_offset"))
        , support_wall_thickness(mesh_group_settings.get<coord_t>("support_wall_thickness"))
        , support_enlarged_wall_thickness(mesh_group_settings.get<coord_t>("support_enlarged_wall_thickness"))
        , support_roof_wall_count(mesh_group_settings.get<int>("support_roof_wall_count"))
        , zig_zaggify_support(mesh_group_settings.get<bool>("zig_zaggify_support"))
        , maximum_deviation(mesh_group_settings.get<coord_t>("meshfix_maximum_deviation"))
        , maximum_resolution(mesh_group_settings.get<coord_t>("meshfix_maximum_resolution"))
        , support_roof_line_distance(mesh_group_settings.get<coord_t>("support_roof_line_distance"))
        ,
        skip_some_zags(mesh_group_settings.get<bool>("support_skip_some_zags"))
        , zag_skip_count(mesh_group_settings.get<size_t>("support_zag_skip_count"))
        , connect_zigzags(mesh_group_settings.get<bool>("support_connect_zigzags"))
        , settings(mesh_group_settings)
        , min_feature_size(mesh_group_settings.get<coord_t>("min_feature_size"))
        , min_wall_line_width(settings.get<coord_t>("min_wall_line_width"))
        , fill_outline_gaps(settings.get<bool>("fill_outline_gaps"))
        , support_wall_thickness_bottom_layers(settings.get<int>("support_wall_thickness_bottom_layers"))
        , support_wall_thickness_top_layers(settings.get<int>("support_wall_thickness_top_layers"))
        , support_wall_thickness_layer_smooth(settings.get<int>("support_wall_thickness_layer_smooth"))
        , simplifier(Simplify(mesh_group_settings))
    {
        layer_start_bp_radius = (bp_radius - branch_radius) / (branch_radius * diameter_scale_bp_radius);
        if (has_to_rely_on_min_xy_dist_only)
        {
            xy_min_distance = std::max(coord_t(100), xy_min_distance);
        }
        xy_distance = std::max(xy_distance, xy_min_distance);
        const std::function<void(std::vector<AngleDegrees>&, EFillMethod)> getInterfaceAngles
            = [&](std::vector<AngleDegrees>& angles, EFillMethod pattern) {
                  if (angles.empty())
                  {
                      if (pattern == EFillMethod::CONCENTRIC)
                      {
                          angles.push_back(0);
                      }
                      else if (pattern == EFillMethod::TRIANGLES)
                      {
                          angles.push_back(90);
                      }
                      else
                      {
                          if (TreeSupportSettings::some_model_contains_thick_roof)
                          {
                              angles.push_back(45);
                              angles.push_back(135);
                          }
                          if (angles.empty())
                          {
                              angles.push_back(90);
                          }
                      }
                  }
              };
        if (support_infill_angles.empty())
        {
            support_infill_angles.push_back(0);
        }
        getInterfaceAngles(support_roof_angles, roof_pattern);
        const std::unordered_map<std::string, InterfacePreference> interface_map
            = { { "support_area_overwrite_interface_area", InterfacePreference::SUPPORT_AREA_OVERWRITES_INTERFACE },
                { "interface_area_overwrite_support_area", InterfacePreference::INTERFACE_AREA_OVERWRITES_SUPPORT },
                { "support_lines_overwrite_interface_area", InterfacePreference::SUPPORT_LINES_OVERWRITE_INTERFACE },
                { "interface_lines_overwrite_support_area", InterfacePreference::INTERFACE_LINES_OVERWRITE_SUPPORT },
                { "nothing", InterfacePreference::NOTHING } };
        interface_preference = interface_map.at(mesh_group_settings.get<std::string>("support_interface_priority"));
    }
//END
private:
    double angle;
    double angle_slow;
    std::vector<coord_t> known_z;
public:
    inline static bool some_model_contains_thick_roof = false;
    inline static bool has_to_rely_on_min_xy_dist_only = false;
    coord_t support_line_width;
    coord_t layer_height;
    coord_t branch_radius;
    coord_t min_radius;
    coord_t max_radius;
    coord_t maximum_move_distance;
    coord_t maximum_move_distance_slow;
    size_t support_bottom_layers;
    size_t tip_layers;
    double diameter_angle_scale_factor;
    coord_t max_to_model_radius_increase;
    size_t min_dtt_to_model;
    coord_t increase_radius_until_radius;
    size_t increase_radius_until_dtt;
    bool support_rests_on_model;
    RestPreference support_rest_preference;
    coord_t xy_distance;
    coord_t bp_radius;
    coord_t layer_start_bp_radius;
    double diameter_scale_bp_radius;
    SupportDistPriority support_overrides;
    coord_t xy_min_distance;
    coord_t z_distance_top;
    size_t z_distance_top_layers;
    size_t z_distance_bottom_layers;
    std::vector<AngleDegrees> support_infill_angles;
    std::vector<AngleDegrees> support_roof_angles;
    EFillMethod roof_pattern;
    EFillMethod support_pattern;
    coord_t support_roof_line_width;
    coord_t support_line_distance;
    coord_t support_bottom_offset;
    coord_t support_wall_thickness;
    coord_t support_enlarged_wall_thickness;
    int support_roof_wall_count;
    bool zig_zaggify_support;
    coord_t maximum_deviation;
    coord_t maximum_resolution;
    coord_t support_roof_line_distance;
    bool skip_some_zags;
    size_t zag_skip_count;
    bool connect_zigzags;
    InterfacePreference interface_preference;
    Settings settings;
    coord_t min_feature_size;
    coord_t min_wall_line_width;
    bool fill_outline_gaps;
    coord_t support_wall_thickness_bottom_layers;
    coord_t support_wall_thickness_top_layers;
    coord_t support_wall_thickness_layer_smooth;
    Simplify simplifier = Simplify(0, 0, 0);
public:
    bool operator==(const TreeSupportSettings& other) const
    {
        return branch_radius == other.branch_radius && tip_layers == other.tip_layers && diameter_angle_scale_factor == other.diameter_angle_scale_factor
            && layer_start_bp_radius == other.layer_start_bp_radius && bp_radius == other.bp_radius && diameter_scale_bp_radius == other.diameter_scale_bp_radius
            && min_radius == other.min_radius && xy_min_distance == other.xy_min_distance &&
               xy_distance - xy_min_distance == other.xy_distance - other.xy_min_distance
            &&
               support_rests_on_model == other.support_rests_on_model && increase_radius_until_dtt == other.increase_radius_until_dtt && min_dtt_to_model == other.min_dtt_to_model
            && max_to_model_radius_increase == other.max_to_model_radius_increase && maximum_move_distance == other.maximum_move_distance
            && maximum_move_distance_slow == other.maximum_move_distance_slow && z_distance_bottom_layers == other.z_distance_bottom_layers
            && support_line_width == other.support_line_width && support_overrides == other.support_overrides && support_line_distance == other.support_line_distance
            && support_roof_line_width == other.support_roof_line_width
            &&
               support_bottom_offset == other.support_bottom_offset && support_wall_thickness == other.support_wall_thickness
            && support_enlarged_wall_thickness == other.support_enlarged_wall_thickness && support_pattern == other.support_pattern && roof_pattern == other.roof_pattern
            &&
               support_roof_angles == other.support_roof_angles && support_infill_angles == other.support_infill_angles
            && increase_radius_until_radius == other.increase_radius_until_radius && support_bottom_layers == other.support_bottom_layers && layer_height == other.layer_height
            && z_distance_top == other.z_distance_top && maximum_deviation == other.maximum_deviation &&
               maximum_resolution == other.maximum_resolution && support_roof_line_distance == other.support_roof_line_distance && skip_some_zags == other.skip_some_zags
            && zag_skip_count == other.zag_skip_count && connect_zigzags == other.connect_zigzags && interface_preference == other.interface_preference
            && min_feature_size == other.min_feature_size &&
               support_rest_preference == other.support_rest_preference && max_radius == other.max_radius && min_wall_line_width == other.min_wall_line_width
            && fill_outline_gaps == other.fill_outline_gaps && support_wall_thickness_bottom_layers == other.support_wall_thickness_bottom_layers
            && support_wall_thickness_top_layers == other.support_wall_thickness_top_layers && support_wall_thickness_layer_smooth == other.support_wall_thickness_layer_smooth &&
               (interface_preference == InterfacePreference::INTERFACE_AREA_OVERWRITES_SUPPORT || interface_preference == InterfacePreference::SUPPORT_AREA_OVERWRITES_INTERFACE
                || (settings.get<bool>("fill_outline_gaps") == other.settings.get<bool>("fill_outline_gaps")
                    && settings.get<coord_t>("min_bead_width") == other.settings.get<coord_t>("min_bead_width")
                    && settings.get<AngleRadians>("wall_transition_angle") == other.settings.get<AngleRadians>("wall_transition_angle")
                    && settings.get<coord_t>("wall_transition_length") == other.settings.get<coord_t>("wall_transition_length")
                    && settings.get<coord_t>("min_odd_wall_line_width") == other.settings.get<coord_t>("min_odd_wall_line_width")
                    && settings.get<coord_t>("min_even_wall_line_width") == other.settings.get<coord_t>("min_even_wall_line_width")
                    && settings.get<int>("wall_distribution_count") == other.settings.get<int>("wall_distribution_count")
                    && settings.get<coord_t>("wall_transition_filter_distance") == other.settings.get<coord_t>("wall_transition_filter_distance")
                    && settings.get<coord_t>("wall_transition_filter_deviation") == other.settings.get<coord_t>("wall_transition_filter_deviation")
                    && settings.get<coord_t>("wall_line_width_x") == other.settings.get<coord_t>("wall_line_width_x")
                    && settings.get<int>("meshfix_maximum_extrusion_area_deviation") == other.settings.get<int>("meshfix_maximum_extrusion_area_deviation")));
    }
    [[nodiscard]] inline size_t getEffectiveDTT(const TreeSupportElement& elem) const
    {
        return elem.effective_radius_height_ < increase_radius_until_dtt ? (elem.distance_to_top_ < increase_radius_until_dtt ? elem.distance_to_top_ : increase_radius_until_dtt)
                                                                         : elem.effective_radius_height_;
    }
    [[nodiscard]] inline coord_t getRadius(size_t distance_to_top, const double buildplate_radius_increases = 0) const
    {
        coord_t uncapped_radius = (distance_to_top <= tip_layers ?
                                                                  min_radius + (branch_radius - min_radius) * distance_to_top / tip_layers
                                                                 :
                                                                  branch_radius +
                                                                      branch_radius * (distance_to_top - tip_layers) * diameter_angle_scale_factor)
                                + branch_radius * buildplate_radius_increases * (std::max(diameter_scale_bp_radius - diameter_angle_scale_factor, 0.0));
        return std::min(uncapped_radius, max_radius);
    }
    [[nodiscard]] inline coord_t getRadius(const TreeSupportElement& elem) const
    {
        return getRadius(getEffectiveDTT(elem), (elem.isResultOnLayerSet() || ! support_rests_on_model) && elem.to_buildplate_ ? elem.buildplate_radius_increases_ : 0);
    }
    [[nodiscard]] inline coord_t getCollisionRadius(const TreeSupportElement& elem) const
    {
        return getRadius(elem.effective_radius_height_, elem.buildplate_radius_increases_);
    }
    [[nodiscard]] inline coord_t recommendedMinRadius(LayerIndex layer_idx) const
    {
        const double scale = (layer_start_bp_radius - layer_idx) * diameter_scale_bp_radius;
        return scale > 0 ? std::min(coord_t(branch_radius + branch_radius * scale), max_radius) : 0;
    }
    [[nodiscard]] inline coord_t getActualZ(LayerIndex layer_idx) const
    {
        return layer_idx < coord_t(known_z.size()) ? known_z[layer_idx] : (layer_idx - known_z.size()) * layer_height + known_z.size() ? known_z.back() : 0;
    }
    void setActualZ(std::vector<coord_t>& z)
    {
        known_z = z;
    }
};
}
#endif
