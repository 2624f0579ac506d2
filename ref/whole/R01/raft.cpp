// What the functions of this unit compute.
#include "raft.h"
#include <polyclipping/clipper.hpp>
#include <spdlog/spdlog.h>
#include "Application.h"
#include "ExtruderTrain.h"
#include "Slice.h"
#include "settings/EnumSettings.h"
#include "sliceDataStorage.h"
#include "utils/math.h"
namespace cura
{
//= cura::Raft::generate
void Raft::generate(SliceDataStorage& storage)
{
    assert(
        storage.raft_base_outline.size() == 0 && storage.raft_interface_outline.size() == 0 && storage.raft_surface_outline.size() == 0
        && "Raft polygon isn't generated yet, so should be empty!");
    const Settings& settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings.get<ExtruderTrain&>("raft_base_extruder_nr").settings_;
    constexpr bool include_support = true;
    constexpr bool dont_include_prime_tower = false;
    const auto raft_base_margin = settings.get<coord_t>("raft_base_margin");
    const auto raft_interface_margin = settings.get<coord_t>("raft_interface_margin");
    const auto raft_surface_margin = settings.get<coord_t>("raft_surface_margin");
    storage.raft_base_outline = storage.raft_surface_outline = storage.raft_interface_outline = storage.getLayerOutlines(0, include_support, dont_include_prime_tower);
    storage.raft_base_outline = storage.raft_base_outline.offset(raft_base_margin, ClipperLib::jtRound);
    storage.raft_interface_outline = storage.raft_interface_outline.offset(raft_interface_margin, ClipperLib::jtRound);
    storage.raft_surface_outline = storage.raft_surface_outline.offset(raft_surface_margin, ClipperLib::jtRound);
    const coord_t shield_line_width_layer0 = settings.get<coord_t>("skirt_brim_line_width");
    const coord_t max_raft_distance = std::max(std::max(raft_base_margin, raft_interface_margin), raft_surface_margin);
    if (storage.draft_protection_shield.size() > 0)
    {
        Shape draft_shield_raft
            = storage.draft_protection_shield
                  .offset(shield_line_width_layer0)
                  .difference(storage.draft_protection_shield.offset(-max_raft_distance - shield_line_width_layer0 / 2, ClipperLib::jtRound));
        storage.raft_base_outline = storage.raft_base_outline.unionPolygons(draft_shield_raft);
        storage.raft_surface_outline = storage.raft_surface_outline.unionPolygons(draft_shield_raft);
        storage.raft_interface_outline = storage.raft_interface_outline.unionPolygons(draft_shield_raft);
    }
    if (storage.ooze_shield.size() > 0 && storage.ooze_shield[0].size() > 0)
    {
        const Shape& ooze_shield = storage.ooze_shield[0];
        Shape ooze_shield_raft = ooze_shield
                                     .offset(shield_line_width_layer0)
                                     .difference(ooze_shield.offset(-max_raft_distance - shield_line_width_layer0 / 2, ClipperLib::jtRound));
        storage.raft_base_outline = storage.raft_base_outline.unionPolygons(ooze_shield_raft);
        storage.raft_surface_outline = storage.raft_surface_outline.unionPolygons(ooze_shield_raft);
        storage.raft_interface_outline = storage.raft_interface_outline.unionPolygons(ooze_shield_raft);
    }
    const auto remove_inside_corners = [](Shape& outline, bool remove_inside_corners, coord_t smoothing, coord_t line_width)
    {
        if (remove_inside_corners)
        {
            outline = outline.unionPolygons();
            auto outline_parts = outline.unionPolygons().splitIntoParts();
            auto nr_of_parts = outline_parts.size();
            while (true)
            {
                outline.clear();
                for (auto& part : outline_parts)
                {
                    part.makeConvex();
                    outline.push_back(part);
                }
                outline = outline.unionPolygons();
                outline_parts = outline.splitIntoParts();
                const auto new_nr_of_parts = outline_parts.size();
                if (new_nr_of_parts > nr_of_parts)
                {
                    spdlog::warn("Error while removing inside corners from raft; merge operation increased the number of parts");
                    assert(false);
                    break;
                }
                if (new_nr_of_parts == nr_of_parts)
                {
                    break;
                }
                nr_of_parts = new_nr_of_parts;
            }
        }
        else
        {
            outline = outline.offset(smoothing, ClipperLib::jtRound).offset(-smoothing, ClipperLib::jtRound);
            outline = outline.offset(-line_width, ClipperLib::jtRound).offset(line_width, ClipperLib::jtRound);
        }
    };
    const auto nominal_raft_line_width = settings.get<coord_t>("skirt_brim_line_width");
    remove_inside_corners(storage.raft_base_outline, settings.get<bool>("raft_base_remove_inside_corners"), settings.get<coord_t>("raft_base_smoothing"), nominal_raft_line_width);
    remove_inside_corners(
        storage.raft_interface_outline,
        settings.get<bool>("raft_interface_remove_inside_corners"),
        settings.get<coord_t>("raft_interface_smoothing"),
        nominal_raft_line_width);
    remove_inside_corners(
        storage.raft_surface_outline,
        settings.get<bool>("raft_surface_remove_inside_corners"),
        settings.get<coord_t>("raft_surface_smoothing"),
        nominal_raft_line_width);
}
//END
}
