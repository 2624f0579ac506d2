// What the functions of this unit compute.
#include "FffGcodeWriter.h"
#include <algorithm>
#include <cura-formulae-engine/eval.h>
#include <limits>
#include <list>
#include <memory>
#include <numbers>
#include <numeric>
#include <optional>
#include <unordered_set>
#include <range/v3/view/chunk_by.hpp>
#include <range/v3/view/concat.hpp>
#include <spdlog/spdlog.h>
#include "Application.h"
#include "ExtruderTrain.h"
#include "FffProcessor.h"
#include "InfillOrderOptimizer.h"
#include "InsetOrderOptimizer.h"
#include "LayerPlan.h"
#include "PrimeTower/PrimeTower.h"
#include "Slice.h"
#include "WallToolPaths.h"
#include "bridge/bridge.h"
#include "communication/Communication.h"
#include "geometry/LinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/PointMatrix.h"
#include "infill.h"
#include "progress/Progress.h"
#include "raft.h"
#include "utils/Simplify.h"
#include "utils/ThreadPool.h"
#include "utils/linearAlg2D.h"
#include "utils/math.h"
#include "utils/orderOptimizer.h"
#include "utils/polygonUtils.h"
namespace cura
{
const FffGcodeWriter::RoofingFlooringSettingsNames FffGcodeWriter::roofing_settings_names = { "roofing_extruder_nr", "roofing_pattern", "roofing_monotonic" };
const FffGcodeWriter::RoofingFlooringSettingsNames FffGcodeWriter::flooring_settings_names = { "flooring_extruder_nr", "flooring_pattern", "flooring_monotonic" };
//= cura::FffGcodeWriter::FffGcodeWriter
FffGcodeWriter::FffGcodeWriter()
    : max_object_height(0)
    , layer_plan_buffer(gcode)
    , slice_uuid(Application::getInstance().instance_uuid_)
{
    for (unsigned int extruder_nr = 0; extruder_nr < MAX_EXTRUDERS; extruder_nr++)
    {
        extruder_prime_layer_nr[extruder_nr] = std::numeric_limits<int>::max();
    }
}
//END
//= cura::FffGcodeWriter::writeGCode
void FffGcodeWriter::writeGCode(SliceDataStorage& storage, TimeKeeper& time_keeper)
{
    const size_t start_extruder_nr = getStartExtruder(storage);
    gcode.preSetup(start_extruder_nr);
    gcode.setSliceUUID(slice_uuid);
    Scene& scene = Application::getInstance().current_slice_->scene;
    if (scene.current_mesh_group == scene.mesh_groups.begin())
    {
        gcode.resetTotalPrintTimeAndFilament();
        gcode.setInitialAndBuildVolumeTemps(start_extruder_nr);
    }
    setConfigFanSpeedLayerTime();
    setConfigRetractionAndWipe(storage);
    if (scene.current_mesh_group == scene.mesh_groups.begin())
    {
        auto should_prime_extruder = gcode.initializeExtruderTrains(storage, start_extruder_nr);
        if (! should_prime_extruder)
        {
            extruder_prime_layer_nr[start_extruder_nr] = std::numeric_limits<int>::min();
        }
    }
    else
    {
        processNextMeshGroupCode(storage);
    }
    size_t total_layers = 0;
    for (std::shared_ptr<SliceMeshStorage>& mesh_ptr : storage.meshes)
    {
        auto& mesh = *mesh_ptr;
        size_t mesh_layer_num = mesh.layers.size();
        while (mesh_layer_num > 0 && mesh.layers[mesh_layer_num - 1].getOutlines().empty())
        {
            mesh_layer_num--;
        }
        total_layers = std::max(total_layers, mesh_layer_num);
        setInfillAndSkinAngles(mesh);
    }
    setSupportAngles(storage);
    gcode.writeLayerCountComment(total_layers);
    {
        const size_t extruder_count = Application::getInstance().current_slice_->scene.extruders.size();
        mesh_order_per_extruder.clear();
        mesh_order_per_extruder.reserve(extruder_count);
        for (size_t extruder_nr = 0; extruder_nr < extruder_count; extruder_nr++)
        {
            mesh_order_per_extruder.push_back(calculateMeshOrder(storage, extruder_nr));
        }
    }
    const auto extruder_settings = Application::getInstance().current_slice_->scene.extruders[gcode.getExtruderNr()].settings_;
    if (! extruder_settings.get<bool>("prime_blob_enable") and ! (extruder_settings.get<std::string>("print_sequence") == "one_at_a_time"))
    {
        Point3LL p(extruder_settings.get<coord_t>("machine_extruder_start_pos_x"), extruder_settings.get<coord_t>("machine_extruder_start_pos_y"), gcode.getPositionZ());
        gcode.writeTravel(p, extruder_settings.get<Velocity>("speed_travel"));
    }
    calculateExtruderOrderPerLayer(storage);
    calculatePrimeLayerPerExtruder(storage);
    if (scene.current_mesh_group->settings.get<bool>("magic_spiralize"))
    {
        findLayerSeamsForSpiralize(storage, total_layers);
    }
    int process_layer_starting_layer_nr = 0;
    const bool has_raft = scene.current_mesh_group->settings.get<EPlatformAdhesion>("adhesion_type") == EPlatformAdhesion::RAFT;
    if (has_raft)
    {
        processRaft(storage);
        for (bool extruder_is_used_in_filler_layers : storage.getExtrudersUsed(-1))
        {
            if (extruder_is_used_in_filler_layers)
            {
                process_layer_starting_layer_nr = -static_cast<int>(Raft::getFillerLayerCount());
                break;
            }
        }
    }
    run_multiple_producers_ordered_consumer(
        process_layer_starting_layer_nr,
        total_layers,
        [&storage, total_layers, this](int layer_nr)
        {
            return std::make_optional(processLayer(storage, layer_nr, total_layers));
        },
        [this, total_layers](std::optional<ProcessLayerResult> result_opt)
        {
            const ProcessLayerResult& result = result_opt.value();
            Progress::messageProgressLayer(result.layer_plan->getLayerNr(), total_layers, result.total_elapsed_time, result.stages_times);
            layer_plan_buffer.handle(*result.layer_plan, gcode);
            print_info_.updateWithLayer(result.layer_plan);
        });
    layer_plan_buffer.flush();
    Progress::messageProgressStage(Progress::Stage::FINISH, &time_keeper);
    max_object_height = std::max(max_object_height, storage.model_max.z_);
    constexpr bool force = true;
    gcode.writeRetraction(storage.retraction_wipe_config_per_extruder[gcode.getExtruderNr()].retraction_config, force);
}
//END
static void retractionAndWipeConfigFromSettings(const Settings& settings, RetractionAndWipeConfig* config)
{
    RetractionConfig& retraction_config = config->retraction_config;
    retraction_config.distance = (settings.get<bool>("retraction_enable")) ? settings.get<double>("retraction_amount") : 0;
    retraction_config.retract_during_travel = settings.get<Ratio>("retraction_during_travel_ratio");
    retraction_config.keep_retracting_during_travel = settings.get<bool>("keep_retracting_during_travel");
    retraction_config.prime_during_travel = settings.get<Ratio>("prime_during_travel_ratio");
    retraction_config.prime_volume = settings.get<double>("retraction_extra_prime_amount");
    retraction_config.speed = settings.get<Velocity>("retraction_retract_speed");
    retraction_config.primeSpeed = settings.get<Velocity>("retraction_prime_speed");
    retraction_config.zHop = settings.get<coord_t>("retraction_hop");
    retraction_config.retraction_min_travel_distance = settings.get<coord_t>("retraction_min_travel");
    retraction_config.retraction_extrusion_window = settings.get<double>("retraction_extrusion_window");
    retraction_config.retraction_count_max = settings.get<size_t>("retraction_count_max");
    config->retraction_hop_after_extruder_switch = settings.get<bool>("retraction_hop_after_extruder_switch");
    config->switch_extruder_extra_prime_amount = settings.get<double>("switch_extruder_extra_prime_amount");
    RetractionConfig& switch_retraction_config = config->extruder_switch_retraction_config;
    switch_retraction_config.distance = settings.get<double>("switch_extruder_retraction_amount");
    switch_retraction_config.prime_volume = 0.0;
    switch_retraction_config.speed = settings.get<Velocity>("switch_extruder_retraction_speed");
    switch_retraction_config.primeSpeed = settings.get<Velocity>("switch_extruder_prime_speed");
    switch_retraction_config.zHop = settings.get<coord_t>("retraction_hop_after_extruder_switch_height");
    switch_retraction_config.retraction_min_travel_distance = 0;
    switch_retraction_config.retraction_extrusion_window
        = 99999.9;
    switch_retraction_config.retraction_count_max = 9999999;
    WipeScriptConfig& wipe_config = config->wipe_config;
    wipe_config.retraction_enable = settings.get<bool>("wipe_retraction_enable");
    wipe_config.retraction_config.distance = settings.get<double>("wipe_retraction_amount");
    wipe_config.retraction_config.speed = settings.get<Velocity>("wipe_retraction_retract_speed");
    wipe_config.retraction_config.primeSpeed = settings.get<Velocity>("wipe_retraction_prime_speed");
    wipe_config.retraction_config.prime_volume = settings.get<double>("wipe_retraction_extra_prime_amount");
    wipe_config.retraction_config.retraction_min_travel_distance = 0;
    wipe_config.retraction_config.retraction_extrusion_window = std::numeric_limits<double>::max();
    wipe_config.retraction_config.retraction_count_max = std::numeric_limits<size_t>::max();
    wipe_config.pause = settings.get<Duration>("wipe_pause");
    wipe_config.hop_enable = settings.get<bool>("wipe_hop_enable");
    wipe_config.hop_amount = settings.get<coord_t>("wipe_hop_amount");
    wipe_config.hop_speed = settings.get<Velocity>("wipe_hop_speed");
    wipe_config.brush_pos_x = settings.get<coord_t>("wipe_brush_pos_x");
    wipe_config.repeat_count = settings.get<size_t>("wipe_repeat_count");
    wipe_config.move_distance = settings.get<coord_t>("wipe_move_distance");
    wipe_config.move_speed = settings.get<Velocity>("speed_travel");
    wipe_config.max_extrusion_mm3 = settings.get<double>("max_extrusion_before_wipe");
    wipe_config.clean_between_layers = settings.get<bool>("clean_between_layers");
}
//= cura::FffGcodeWriter::setConfigRetractionAndWipe
void FffGcodeWriter::setConfigRetractionAndWipe(SliceDataStorage& storage)
{
    Scene& scene = Application::getInstance().current_slice_->scene;
    for (size_t extruder_index = 0; extruder_index < scene.extruders.size(); extruder_index++)
    {
        ExtruderTrain& train = scene.extruders[extruder_index];
        retractionAndWipeConfigFromSettings(train.settings_, &storage.retraction_wipe_config_per_extruder[extruder_index]);
    }
    for (std::shared_ptr<SliceMeshStorage>& mesh : storage.meshes)
    {
        retractionAndWipeConfigFromSettings(mesh->settings, &mesh->retraction_wipe_config);
    }
}
//END
//= cura::FffGcodeWriter::processRaft
void FffGcodeWriter::processRaft(const SliceDataStorage& storage)
{
    Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const size_t base_extruder_nr = mesh_group_settings.get<ExtruderTrain&>("raft_base_extruder_nr").extruder_nr_;
    const size_t interface_extruder_nr = mesh_group_settings.get<ExtruderTrain&>("raft_interface_extruder_nr").extruder_nr_;
    const size_t surface_extruder_nr = mesh_group_settings.get<ExtruderTrain&>("raft_surface_extruder_nr").extruder_nr_;
    coord_t z = 0;
    const LayerIndex initial_raft_layer_nr = -LayerIndex(Raft::getTotalExtraLayers());
    const Settings& interface_settings = mesh_group_settings.get<ExtruderTrain&>("raft_interface_extruder_nr").settings_;
    const size_t num_interface_layers = interface_settings.get<size_t>("raft_interface_layers");
    const Settings& surface_settings = mesh_group_settings.get<ExtruderTrain&>("raft_surface_extruder_nr").settings_;
    const size_t num_surface_layers = surface_settings.get<size_t>("raft_surface_layers");
    constexpr int infill_multiplier = 1;
    constexpr int extra_infill_shift = 0;
    constexpr bool fill_gaps = true;
    constexpr coord_t wipe_dist = 0;
    Shape raft_polygons;
    std::optional<Point2LL> last_planned_position = std::optional<Point2LL>();
    size_t current_extruder_nr = base_extruder_nr;
    {
        const Settings& base_settings = mesh_group_settings.get<ExtruderTrain&>("raft_base_extruder_nr").settings_;
        LayerIndex layer_nr = initial_raft_layer_nr;
        const coord_t layer_height = base_settings.get<coord_t>("raft_base_thickness");
        z += layer_height;
        const coord_t comb_offset = std::max(base_settings.get<coord_t>("raft_base_line_spacing"), base_settings.get<coord_t>("raft_base_line_width"));
        std::vector<FanSpeedLayerTimeSettings> fan_speed_layer_time_settings_per_extruder_raft_base
            = fan_speed_layer_time_settings_per_extruder;
        for (FanSpeedLayerTimeSettings& fan_speed_layer_time_settings : fan_speed_layer_time_settings_per_extruder_raft_base)
        {
            double regular_fan_speed = base_settings.get<Ratio>("raft_base_fan_speed") * 100.0;
            fan_speed_layer_time_settings.cool_fan_speed_min = regular_fan_speed;
            fan_speed_layer_time_settings.cool_fan_speed_0 = regular_fan_speed;
        }
        const coord_t line_width = base_settings.get<coord_t>("raft_base_line_width");
        const coord_t avoid_distance = base_settings.get<coord_t>("travel_avoid_distance");
        LayerPlan& gcode_layer
            = *new LayerPlan(storage, layer_nr, z, layer_height, base_extruder_nr, fan_speed_layer_time_settings_per_extruder_raft_base, comb_offset, line_width, avoid_distance);
        gcode_layer.setIsInside(true);
        Application::getInstance().communication_->sendLayerComplete(layer_nr, z, layer_height);
        OpenLinesSet raft_lines;
        AngleDegrees fill_angle = (num_surface_layers + num_interface_layers) % 2 ? 45 : 135;
        constexpr bool zig_zaggify_infill = false;
        constexpr bool connect_polygons = true;
        const size_t wall_line_count = base_settings.get<size_t>("raft_base_wall_count");
        const coord_t small_area_width = 0;
        const coord_t line_spacing = base_settings.get<coord_t>("raft_base_line_spacing");
        const coord_t infill_overlap = base_settings.get<coord_t>("raft_base_infill_overlap_mm");
        const coord_t line_spacing_prime_tower = base_settings.get<coord_t>("prime_tower_raft_base_line_spacing");
        const Point2LL& infill_origin = Point2LL();
        constexpr bool skip_stitching = false;
        constexpr bool connected_zigzags = false;
        constexpr bool use_endpieces = true;
        constexpr bool skip_some_zags = false;
        constexpr int zag_skip_count = 0;
        constexpr coord_t pocket_size = 0;
        const coord_t max_resolution = base_settings.get<coord_t>("meshfix_maximum_resolution");
        const coord_t max_deviation = base_settings.get<coord_t>("meshfix_maximum_deviation");
        struct ParameterizedRaftPath
        {
            coord_t line_spacing;
            Shape outline;
        };
        std::vector<ParameterizedRaftPath> raft_outline_paths;
        raft_outline_paths.emplace_back(ParameterizedRaftPath{ line_spacing, storage.raft_base_outline });
        if (storage.prime_tower_)
        {
            const Shape raft_outline_prime_tower = Shape(storage.prime_tower_->getExtrusionOutline(layer_nr));
            if (line_spacing_prime_tower == line_spacing)
            {
                raft_outline_paths.front().outline = raft_outline_paths.front().outline.unionPolygons(raft_outline_prime_tower);
            }
            else
            {
                raft_outline_paths.front().outline = raft_outline_paths.front().outline.difference(raft_outline_prime_tower);
                raft_outline_paths.emplace_back(ParameterizedRaftPath{ line_spacing_prime_tower, raft_outline_prime_tower });
            }
        }
        for (const ParameterizedRaftPath& raft_outline_path : raft_outline_paths)
        {
            Infill infill_comp(
                EFillMethod::LINES,
                zig_zaggify_infill,
                connect_polygons,
                raft_outline_path.outline,
                gcode_layer.configs_storage_.raft_base_config.getLineWidth(),
                raft_outline_path.line_spacing,
                infill_overlap,
                infill_multiplier,
                fill_angle,
                z,
                extra_infill_shift,
                max_resolution,
                max_deviation,
                wall_line_count,
                small_area_width,
                infill_origin,
                skip_stitching,
                fill_gaps,
                connected_zigzags,
                use_endpieces,
                skip_some_zags,
                zag_skip_count,
                pocket_size);
            std::vector<VariableWidthLines> raft_paths;
            infill_comp.generate(raft_paths, raft_polygons, raft_lines, base_settings, layer_nr, SectionType::ADHESION);
            if (! raft_paths.empty())
            {
                const GCodePathConfig& config = gcode_layer.configs_storage_.raft_base_config;
                const ZSeamConfig z_seam_config(
                    EZSeamType::SHORTEST,
                    gcode_layer.getLastPlannedPositionOrStartingPosition(),
                    EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER,
                    false);
                InsetOrderOptimizer wall_orderer(
                    storage,
                    gcode_layer,
                    base_settings,
                    base_extruder_nr,
                    config,
                    config,
                    config,
                    config,
                    config,
                    config,
                    config,
                    config,
                    wipe_dist,
                    wipe_dist,
                    base_extruder_nr,
                    base_extruder_nr,
                    z_seam_config,
                    raft_paths,
                    storage.getModelBoundingBox().flatten().getMiddle());
                wall_orderer.addToLayer();
            }
            const auto wipe_dist = 0;
            const auto spiralize = false;
            const auto flow_ratio = 1.0_r;
            const auto enable_travel_optimization = false;
            const auto always_retract = ForceRetract::AUTOMATIC;
            const auto reverse_order = false;
            gcode_layer.addLinesByOptimizer(
                raft_lines,
                gcode_layer.configs_storage_.raft_base_config,
                SpaceFillType::Lines,
                enable_travel_optimization,
                wipe_dist,
                flow_ratio,
                last_planned_position);
            last_planned_position = gcode_layer.getLastPlannedPositionOrStartingPosition();
            gcode_layer.addPolygonsByOptimizer(
                raft_polygons,
                gcode_layer.configs_storage_.raft_base_config,
                mesh_group_settings,
                ZSeamConfig(),
                wipe_dist,
                spiralize,
                flow_ratio,
                always_retract,
                reverse_order,
                last_planned_position);
            raft_polygons.clear();
            raft_lines.clear();
            last_planned_position = gcode_layer.getLastPlannedPositionOrStartingPosition();
        }
        endRaftLayer(storage, gcode_layer, layer_nr, current_extruder_nr, false);
        layer_plan_buffer.handle(gcode_layer, gcode);
    }
    const coord_t interface_layer_height = interface_settings.get<coord_t>("raft_interface_thickness");
    const coord_t interface_line_spacing = interface_settings.get<coord_t>("raft_interface_line_spacing");
    const Ratio interface_fan_speed = interface_settings.get<Ratio>("raft_interface_fan_speed");
    const coord_t interface_line_width = interface_settings.get<coord_t>("raft_interface_line_width");
    const coord_t interface_infill_overlap = interface_settings.get<coord_t>("raft_interface_infill_overlap_mm");
    const coord_t interface_avoid_distance = interface_settings.get<coord_t>("travel_avoid_distance");
    const coord_t interface_max_resolution = interface_settings.get<coord_t>("meshfix_maximum_resolution");
    const coord_t interface_max_deviation = interface_settings.get<coord_t>("meshfix_maximum_deviation");
    const coord_t raft_interface_z_offset = interface_settings.get<coord_t>("raft_interface_z_offset");
    z += raft_interface_z_offset;
    for (LayerIndex raft_interface_layer = 1; raft_interface_layer <= LayerIndex(num_interface_layers); ++raft_interface_layer)
    {
        const LayerIndex layer_nr = initial_raft_layer_nr + raft_interface_layer;
        z += interface_layer_height;
        std::vector<FanSpeedLayerTimeSettings> fan_speed_layer_time_settings_per_extruder_raft_interface
            = fan_speed_layer_time_settings_per_extruder;
        for (FanSpeedLayerTimeSettings& fan_speed_layer_time_settings : fan_speed_layer_time_settings_per_extruder_raft_interface)
        {
            const double regular_fan_speed = interface_fan_speed * 100.0;
            fan_speed_layer_time_settings.cool_fan_speed_min = regular_fan_speed;
            fan_speed_layer_time_settings.cool_fan_speed_0 = regular_fan_speed;
        }
        const coord_t comb_offset = std::max(interface_line_spacing, interface_line_width);
        LayerPlan& gcode_layer = *new LayerPlan(
            storage,
            layer_nr,
            z,
            interface_layer_height,
            current_extruder_nr,
            fan_speed_layer_time_settings_per_extruder_raft_interface,
            comb_offset,
            interface_line_width,
            interface_avoid_distance);
        gcode_layer.setIsInside(true);
        startRaftLayer(storage, gcode_layer, layer_nr, interface_extruder_nr, current_extruder_nr);
        Application::getInstance().communication_->sendLayerComplete(layer_nr, z, interface_layer_height);
        Shape raft_outline_path;
        const coord_t small_offset = gcode_layer.configs_storage_.raft_interface_config.getLineWidth()
                                   / 2;
        raft_outline_path = storage.raft_interface_outline.offset(-small_offset);
        raft_outline_path = Simplify(interface_settings).polygon(raft_outline_path);
        const coord_t infill_outline_width = gcode_layer.configs_storage_.raft_interface_config.getLineWidth();
        OpenLinesSet raft_lines;
        AngleDegrees fill_angle = (num_surface_layers + num_interface_layers - raft_interface_layer) % 2 ? 45 : 135;
        constexpr bool zig_zaggify_infill = true;
        constexpr bool connect_polygons = true;
        const size_t wall_line_count = interface_settings.get<size_t>("raft_interface_wall_count");
        const coord_t small_area_width = 0;
        const Point2LL infill_origin = Point2LL();
        constexpr bool skip_stitching = false;
        constexpr bool connected_zigzags = false;
        constexpr bool use_endpieces = true;
        constexpr bool skip_some_zags = false;
        constexpr int zag_skip_count = 0;
        constexpr coord_t pocket_size = 0;
        if (storage.prime_tower_)
        {
            raft_outline_path = raft_outline_path.difference(storage.prime_tower_->getExtrusionOutline(layer_nr));
        }
        Infill infill_comp(
            EFillMethod::ZIG_ZAG,
            zig_zaggify_infill,
            connect_polygons,
            raft_outline_path,
            infill_outline_width,
            interface_line_spacing,
            interface_infill_overlap,
            infill_multiplier,
            fill_angle,
            z,
            extra_infill_shift,
            interface_max_resolution,
            interface_max_deviation,
            wall_line_count,
            small_area_width,
            infill_origin,
            skip_stitching,
            fill_gaps,
            connected_zigzags,
            use_endpieces,
            skip_some_zags,
            zag_skip_count,
            pocket_size);
        std::vector<VariableWidthLines> raft_paths;
        infill_comp.generate(raft_paths, raft_polygons, raft_lines, interface_settings, layer_nr, SectionType::ADHESION);
        if (! raft_paths.empty())
        {
            const GCodePathConfig& config = gcode_layer.configs_storage_.raft_interface_config;
            const ZSeamConfig z_seam_config(EZSeamType::SHORTEST, gcode_layer.getLastPlannedPositionOrStartingPosition(), EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER, false);
            InsetOrderOptimizer wall_orderer(
                storage,
                gcode_layer,
                interface_settings,
                interface_extruder_nr,
                config,
                config,
                config,
                config,
                config,
                config,
                config,
                config,
                wipe_dist,
                wipe_dist,
                interface_extruder_nr,
                interface_extruder_nr,
                z_seam_config,
                raft_paths,
                storage.getModelBoundingBox().flatten().getMiddle());
            wall_orderer.addToLayer();
        }
        const auto wipe_dist = 0;
        const auto spiralize = false;
        const auto flow_ratio = 1.0_r;
        const auto enable_travel_optimization = false;
        const auto always_retract = ForceRetract::AUTOMATIC;
        const auto reverse_order = false;
        gcode_layer.addLinesByOptimizer(
            raft_lines,
            gcode_layer.configs_storage_.raft_interface_config,
            SpaceFillType::Lines,
            enable_travel_optimization,
            wipe_dist,
            flow_ratio,
            last_planned_position);
        last_planned_position = gcode_layer.getLastPlannedPositionOrStartingPosition();
        gcode_layer.addPolygonsByOptimizer(
            raft_polygons,
            gcode_layer.configs_storage_.raft_interface_config,
            mesh_group_settings,
            ZSeamConfig(),
            wipe_dist,
            spiralize,
            flow_ratio,
            always_retract,
            reverse_order,
            last_planned_position);
        raft_polygons.clear();
        raft_lines.clear();
        endRaftLayer(storage, gcode_layer, layer_nr, current_extruder_nr);
        layer_plan_buffer.handle(gcode_layer, gcode);
        last_planned_position = gcode_layer.getLastPlannedPositionOrStartingPosition();
    }
    const coord_t surface_layer_height = surface_settings.get<coord_t>("raft_surface_thickness");
    const coord_t surface_line_spacing = surface_settings.get<coord_t>("raft_surface_line_spacing");
    const coord_t surface_max_resolution = surface_settings.get<coord_t>("meshfix_maximum_resolution");
    const coord_t surface_max_deviation = surface_settings.get<coord_t>("meshfix_maximum_deviation");
    const coord_t surface_line_width = surface_settings.get<coord_t>("raft_surface_line_width");
    const coord_t surface_infill_overlap = surface_settings.get<coord_t>("raft_surface_infill_overlap_mm");
    const coord_t surface_avoid_distance = surface_settings.get<coord_t>("travel_avoid_distance");
    const Ratio surface_fan_speed = surface_settings.get<Ratio>("raft_surface_fan_speed");
    const bool surface_monotonic = surface_settings.get<bool>("raft_surface_monotonic");
    const coord_t raft_surface_z_offset = interface_settings.get<coord_t>("raft_surface_z_offset");
    z += raft_surface_z_offset;
    for (LayerIndex raft_surface_layer = 1; raft_surface_layer <= LayerIndex(num_surface_layers); raft_surface_layer++)
    {
        const LayerIndex layer_nr = initial_raft_layer_nr + 1 + num_interface_layers + raft_surface_layer - 1;
        z += surface_layer_height;
        std::vector<FanSpeedLayerTimeSettings> fan_speed_layer_time_settings_per_extruder_raft_surface
            = fan_speed_layer_time_settings_per_extruder;
        for (FanSpeedLayerTimeSettings& fan_speed_layer_time_settings : fan_speed_layer_time_settings_per_extruder_raft_surface)
        {
            const double regular_fan_speed = surface_fan_speed * 100.0;
            fan_speed_layer_time_settings.cool_fan_speed_min = regular_fan_speed;
            fan_speed_layer_time_settings.cool_fan_speed_0 = regular_fan_speed;
        }
        const coord_t comb_offset = std::max(surface_line_spacing, surface_line_width);
        LayerPlan& gcode_layer = *new LayerPlan(
            storage,
            layer_nr,
            z,
            surface_layer_height,
            current_extruder_nr,
            fan_speed_layer_time_settings_per_extruder_raft_surface,
            comb_offset,
            surface_line_width,
            surface_avoid_distance);
        gcode_layer.setIsInside(true);
        startRaftLayer(storage, gcode_layer, layer_nr, surface_extruder_nr, current_extruder_nr);
        Application::getInstance().communication_->sendLayerComplete(layer_nr, z, surface_layer_height);
        Shape raft_outline_path;
        const coord_t small_offset = gcode_layer.configs_storage_.raft_interface_config.getLineWidth()
                                   / 2;
        raft_outline_path = storage.raft_surface_outline.offset(-small_offset);
        raft_outline_path = Simplify(interface_settings).polygon(raft_outline_path);
        const coord_t infill_outline_width = gcode_layer.configs_storage_.raft_surface_config.getLineWidth();
        OpenLinesSet raft_lines;
        AngleDegrees fill_angle
            = (num_surface_layers - raft_surface_layer) % 2 ? 45 : 135;
        constexpr bool zig_zaggify_infill = true;
        const size_t wall_line_count = surface_settings.get<size_t>("raft_surface_wall_count");
        const coord_t small_area_width = 0;
        const Point2LL& infill_origin = Point2LL();
        const GCodePathConfig& config = gcode_layer.configs_storage_.raft_surface_config;
        const bool monotonic = (raft_surface_layer == num_surface_layers && surface_monotonic);
        const bool skip_stitching = monotonic;
        constexpr bool connected_zigzags = false;
        constexpr bool connect_polygons = false;
        constexpr bool use_endpieces = true;
        constexpr bool skip_some_zags = false;
        constexpr size_t zag_skip_count = 0;
        constexpr coord_t pocket_size = 0;
        if (storage.prime_tower_)
        {
            raft_outline_path = raft_outline_path.difference(storage.prime_tower_->getExtrusionOutline(layer_nr));
        }
        for (const Shape& raft_island : raft_outline_path.splitIntoParts())
        {
            Infill infill_comp(
                EFillMethod::ZIG_ZAG,
                zig_zaggify_infill,
                connect_polygons,
                raft_island,
                infill_outline_width,
                surface_line_spacing,
                surface_infill_overlap,
                infill_multiplier,
                fill_angle,
                z,
                extra_infill_shift,
                surface_max_resolution,
                surface_max_deviation,
                wall_line_count,
                small_area_width,
                infill_origin,
                skip_stitching,
                fill_gaps,
                connected_zigzags,
                use_endpieces,
                skip_some_zags,
                zag_skip_count,
                pocket_size);
            std::vector<VariableWidthLines> raft_paths;
            infill_comp.generate(raft_paths, raft_polygons, raft_lines, surface_settings, layer_nr, SectionType::ADHESION);
            if (! raft_paths.empty())
            {
                const ZSeamConfig z_seam_config(
                    EZSeamType::SHORTEST,
                    gcode_layer.getLastPlannedPositionOrStartingPosition(),
                    EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER,
                    false);
                InsetOrderOptimizer wall_orderer(
                    storage,
                    gcode_layer,
                    surface_settings,
                    surface_extruder_nr,
                    config,
                    config,
                    config,
                    config,
                    config,
                    config,
                    config,
                    config,
                    wipe_dist,
                    wipe_dist,
                    surface_extruder_nr,
                    surface_extruder_nr,
                    z_seam_config,
                    raft_paths,
                    storage.getModelBoundingBox().flatten().getMiddle());
                wall_orderer.addToLayer();
            }
            const auto wipe_dist = 0;
            const auto spiralize = false;
            const auto flow_ratio = 1.0_r;
            const auto enable_travel_optimization = false;
            const auto always_retract = ForceRetract::AUTOMATIC;
            const auto reverse_order = false;
            if (monotonic)
            {
                const AngleRadians monotonic_direction = fill_angle;
                constexpr SpaceFillType space_fill_type = SpaceFillType::PolyLines;
                const coord_t max_adjacent_distance = surface_line_spacing;
                gcode_layer.addLinesMonotonic(raft_island, raft_lines, config, space_fill_type, monotonic_direction, max_adjacent_distance);
            }
            else
            {
                gcode_layer.addLinesByOptimizer(
                    raft_lines,
                    gcode_layer.configs_storage_.raft_surface_config,
                    SpaceFillType::Lines,
                    enable_travel_optimization,
                    wipe_dist,
                    flow_ratio,
                    last_planned_position);
                last_planned_position = gcode_layer.getLastPlannedPositionOrStartingPosition();
                gcode_layer.addPolygonsByOptimizer(
                    raft_polygons,
                    gcode_layer.configs_storage_.raft_surface_config,
                    mesh_group_settings,
                    ZSeamConfig(),
                    wipe_dist,
                    spiralize,
                    flow_ratio,
                    always_retract,
                    reverse_order,
                    last_planned_position);
                last_planned_position = gcode_layer.getLastPlannedPositionOrStartingPosition();
            }
            raft_polygons.clear();
            raft_lines.clear();
        }
        endRaftLayer(storage, gcode_layer, layer_nr, current_extruder_nr);
        layer_plan_buffer.handle(gcode_layer, gcode);
    }
}
//END
//= cura::FffGcodeWriter::processLayer
FffGcodeWriter::ProcessLayerResult FffGcodeWriter::processLayer(const SliceDataStorage& storage, LayerIndex layer_nr, const size_t total_layers) const
{
    spdlog::debug("GcodeWriter processing layer {} of {}", layer_nr, total_layers);
    TimeKeeper time_keeper;
    spdlog::stopwatch timer_total;
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    coord_t layer_thickness = mesh_group_settings.get<coord_t>("layer_height");
    coord_t z;
    bool include_helper_parts = true;
    if (layer_nr < 0)
    {
#ifdef DEBUG
        assert(mesh_group_settings.get<EPlatformAdhesion>("adhesion_type") == EPlatformAdhesion::RAFT && "negative layer_number means post-raft, pre-model layer!");
#endif
        const int filler_layer_count = Raft::getFillerLayerCount();
        layer_thickness = Raft::getFillerLayerHeight();
        z = Raft::getTotalThickness() + (filler_layer_count + layer_nr + 1) * layer_thickness;
    }
    else
    {
        z = storage.meshes[0]->layers[layer_nr].printZ;
        for (const std::shared_ptr<SliceMeshStorage>& mesh_ptr : storage.meshes)
        {
            const auto& mesh = *mesh_ptr;
            if (layer_nr >= static_cast<int>(mesh.layers.size()) || mesh.settings.get<bool>("support_mesh") || ! mesh.isModelMesh())
            {
                continue;
            }
            z = mesh.layers[layer_nr].printZ;
            layer_thickness = mesh.layers[layer_nr].thickness;
            break;
        }
        if (layer_nr < 0 && mesh_group_settings.get<EPlatformAdhesion>("adhesion_type") == EPlatformAdhesion::RAFT)
        {
            include_helper_parts = false;
        }
    }
    const Scene& scene = Application::getInstance().current_slice_->scene;
    coord_t comb_offset_from_outlines = 0;
    coord_t avoid_distance = 0;
    const std::vector<bool> extruder_is_used = storage.getExtrudersUsed();
    for (size_t extruder_nr = 0; extruder_nr < scene.extruders.size(); extruder_nr++)
    {
        if (extruder_is_used[extruder_nr])
        {
            const ExtruderTrain& extruder = scene.extruders[extruder_nr];
            if (extruder.settings_.get<bool>("travel_avoid_other_parts"))
            {
                avoid_distance = std::max(avoid_distance, extruder.settings_.get<coord_t>("travel_avoid_distance"));
            }
            comb_offset_from_outlines = std::max(comb_offset_from_outlines, extruder.settings_.get<coord_t>("retraction_combing_avoid_distance"));
        }
    }
    coord_t max_inner_wall_width = 0;
    for (const std::shared_ptr<SliceMeshStorage>& mesh_ptr : storage.meshes)
    {
        const auto& mesh = *mesh_ptr;
        coord_t mesh_inner_wall_width = mesh.settings.get<coord_t>((mesh.settings.get<size_t>("wall_line_count") > 1) ? "wall_line_width_x" : "wall_line_width_0");
        if (layer_nr == 0)
        {
            const ExtruderTrain& train = mesh.settings.get<ExtruderTrain&>((mesh.settings.get<size_t>("wall_line_count") > 1) ? "wall_0_extruder_nr" : "wall_x_extruder_nr");
            mesh_inner_wall_width *= train.settings_.get<Ratio>("initial_layer_line_width_factor");
        }
        max_inner_wall_width = std::max(max_inner_wall_width, mesh_inner_wall_width);
    }
    const size_t first_extruder = findUsedExtruderIndex(storage, layer_nr, false);
    const std::vector<ExtruderUse> extruder_order = extruder_order_per_layer.get(layer_nr);
    const coord_t first_outer_wall_line_width = scene.extruders[first_extruder].settings_.get<coord_t>("wall_line_width_0");
    LayerPlan& gcode_layer = *new LayerPlan(
        storage,
        layer_nr,
        z,
        layer_thickness,
        first_extruder,
        fan_speed_layer_time_settings_per_extruder,
        comb_offset_from_outlines,
        first_outer_wall_line_width,
        avoid_distance);
    time_keeper.registerTime("Init");
    if (include_helper_parts)
    {
        auto extruder_nr = gcode_layer.getExtruder();
        if (! storage.skirt_brim[extruder_nr].empty())
        {
            processSkirtBrim(storage, gcode_layer, extruder_nr, layer_nr);
        }
        if (! storage.support_brim.empty())
        {
            processSupportBrim(storage, gcode_layer, extruder_nr, layer_nr);
        }
        time_keeper.registerTime("Skirt/brim");
        processOozeShield(storage, gcode_layer);
        time_keeper.registerTime("Ooze shield");
        processDraftShield(storage, gcode_layer);
        time_keeper.registerTime("Draft shield");
    }
    const size_t support_roof_extruder_nr = mesh_group_settings.get<ExtruderTrain&>("support_roof_extruder_nr").extruder_nr_;
    const size_t support_bottom_extruder_nr = mesh_group_settings.get<ExtruderTrain&>("support_bottom_extruder_nr").extruder_nr_;
    const size_t support_infill_extruder_nr = (layer_nr <= 0) ? mesh_group_settings.get<ExtruderTrain&>("support_extruder_nr_layer_0").extruder_nr_
                                                              : mesh_group_settings.get<ExtruderTrain&>("support_infill_extruder_nr").extruder_nr_;
    for (const ExtruderUse& extruder_use : extruder_order)
    {
        const size_t extruder_nr = extruder_use.extruder_nr;
        setExtruder_addPrime(storage, gcode_layer, extruder_nr);
        time_keeper.registerTime("Prime tower");
        if (include_helper_parts && (extruder_nr == support_infill_extruder_nr || extruder_nr == support_roof_extruder_nr || extruder_nr == support_bottom_extruder_nr))
        {
            addSupportToGCode(storage, gcode_layer, extruder_nr);
            time_keeper.registerTime("Supports");
        }
        if (layer_nr >= 0)
        {
            const std::vector<size_t>& mesh_order = mesh_order_per_extruder[extruder_nr];
            for (size_t mesh_idx : mesh_order)
            {
                const std::shared_ptr<SliceMeshStorage>& mesh = storage.meshes[mesh_idx];
                const MeshPathConfigs& mesh_config = gcode_layer.configs_storage_.mesh_configs[mesh_idx];
                if (mesh->settings.get<ESurfaceMode>("magic_mesh_surface_mode") == ESurfaceMode::SURFACE
                    && extruder_nr
                           == mesh->settings.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_
                )
                {
                    addMeshLayerToGCode_meshSurfaceMode(*mesh, mesh_config, gcode_layer);
                }
                else
                {
                    addMeshLayerToGCode(storage, mesh, extruder_nr, mesh_config, gcode_layer);
                }
                time_keeper.registerTime(fmt::format("Mesh {}", mesh->mesh_name));
            }
        }
    }
    gcode_layer.applyGradualFlow();
    gcode_layer.applyModifyPlugin();
    time_keeper.registerTime("Modify plugin");
    gcode_layer.applyBackPressureCompensation();
    time_keeper.registerTime("Back pressure comp.");
    return { &gcode_layer, timer_total.elapsed().count(), time_keeper.getRegisteredTimes() };
}
//END
//= cura::FffGcodeWriter::addMeshLayerToGCode
void FffGcodeWriter::addMeshLayerToGCode(
    const SliceDataStorage& storage,
    const std::shared_ptr<SliceMeshStorage>& mesh_ptr,
    const size_t extruder_nr,
    const MeshPathConfigs& mesh_config,
    LayerPlan& gcode_layer) const
{
    auto& mesh = *mesh_ptr;
    if (gcode_layer.getLayerNr() > mesh.layer_nr_max_filled_layer)
    {
        return;
    }
    if (! mesh.isPrinted() || mesh.settings.get<bool>("support_mesh"))
    {
        return;
    }
    SliceLayer& layer = mesh.layers[gcode_layer.getLayerNr()];
    if (layer.parts.empty())
    {
        return;
    }
    gcode_layer.setMesh(mesh_ptr);
    ZSeamConfig z_seam_config;
    if (mesh.isPrinted())
    {
        z_seam_config = ZSeamConfig(
            mesh.settings.get<EZSeamType>("z_seam_type"),
            mesh.getZSeamHint(),
            mesh.settings.get<EZSeamCornerPrefType>("z_seam_corner"),
            mesh.settings.get<coord_t>("wall_line_width_0") * 2);
    }
    PathOrderOptimizer<SliceLayerPart*> part_order_optimizer(gcode_layer.getLastPlannedPositionOrStartingPosition(), z_seam_config);
    for (SliceLayerPart& part : layer.parts)
    {
        if (part.outline.empty())
        {
            continue;
        }
        part_order_optimizer.addPolygon(&part);
    }
    part_order_optimizer.optimize(false);
    for (const PathOrdering<SliceLayerPart*>& path : part_order_optimizer.paths_)
    {
        addMeshPartToGCode(storage, mesh, extruder_nr, mesh_config, *path.vertices_, gcode_layer);
    }
    const std::string extruder_identifier = (mesh.settings.get<size_t>("roofing_layer_count") > 0) ? "roofing_extruder_nr" : "top_bottom_extruder_nr";
    if (extruder_nr == mesh.settings.get<ExtruderTrain&>(extruder_identifier).extruder_nr_)
    {
        processIroning(storage, mesh, layer, mesh_config.ironing_config, gcode_layer);
    }
    if (mesh.settings.get<ESurfaceMode>("magic_mesh_surface_mode") != ESurfaceMode::NORMAL && extruder_nr == mesh.settings.get<ExtruderTrain&>("wall_0_extruder_nr").extruder_nr_)
    {
        addMeshOpenPolyLinesToGCode(mesh, mesh_config, gcode_layer);
    }
    gcode_layer.setMesh(nullptr);
}
//END
void wall_tool_paths2lines(const std::vector<std::vector<VariableWidthLines>>& wall_tool_paths, OpenLinesSet& result)
{
    for (const auto& a : wall_tool_paths)
    {
        for (const VariableWidthLines& b : a)
        {
            for (const ExtrusionLine& c : b)
            {
                const Polygon poly = c.toPolygon();
                if (c.is_closed_)
                {
                    result.push_back(poly.toPseudoOpenPolyline());
                }
            }
        }
    }
}
//= cura::FffGcodeWriter::processSupportInfill
bool FffGcodeWriter::processSupportInfill(const SliceDataStorage& storage, LayerPlan& gcode_layer) const
{
    bool added_something = false;
    const SupportLayer& support_layer
        = storage.support.supportLayers[std::max(LayerIndex{ 0 }, gcode_layer.getLayerNr())];
    if (gcode_layer.getLayerNr() > storage.support.layer_nr_max_filled_layer || support_layer.support_infill_parts.empty())
    {
        return added_something;
    }
    const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
    const size_t extruder_nr = (gcode_layer.getLayerNr() <= 0) ? mesh_group_settings.get<ExtruderTrain&>("support_extruder_nr_layer_0").extruder_nr_
                                                               : mesh_group_settings.get<ExtruderTrain&>("support_infill_extruder_nr").extruder_nr_;
    const ExtruderTrain& infill_extruder = Application::getInstance().current_slice_->scene.extruders[extruder_nr];
    gcode_layer.addLinesByOptimizer(support_layer.base, gcode_layer.configs_storage_.support_infill_config[0], SpaceFillType::PolyLines);
    coord_t default_support_line_distance = infill_extruder.settings_.get<coord_t>("support_line_distance");
    if (gcode_layer.getLayerNr() == 0)
    {
        default_support_line_distance = infill_extruder.settings_.get<coord_t>("support_initial_layer_line_distance");
    }
    const coord_t default_support_infill_overlap = infill_extruder.settings_.get<coord_t>("infill_overlap_mm");
    const auto get_support_infill_angle = [](const SupportStorage& support_storage, const int layer_nr)
    {
        if (layer_nr <= 0)
        {
            const size_t divisor = support_storage.support_infill_angles_layer_0.size();
            const size_t index = ((layer_nr % divisor) + divisor) % divisor;
            return support_storage.support_infill_angles_layer_0.at(index);
        }
        return support_storage.support_infill_angles.at(static_cast<size_t>(layer_nr) % support_storage.support_infill_angles.size());
    };
    const AngleDegrees support_infill_angle = get_support_infill_angle(storage.support, gcode_layer.getLayerNr());
    const auto infill_multiplier = mesh_group_settings.get<size_t>("support_infill_multiplier");
    size_t infill_density_multiplier = 1;
    if (gcode_layer.getLayerNr() <= 0)
    {
        infill_density_multiplier = infill_extruder.settings_.get<size_t>("support_infill_density_multiplier_initial_layer");
    }
    const coord_t wall_thickness = infill_extruder.settings_.get<coord_t>("support_wall_thickness");
    const coord_t max_resolution = infill_extruder.settings_.get<coord_t>("meshfix_maximum_resolution");
    const coord_t max_deviation = infill_extruder.settings_.get<coord_t>("meshfix_maximum_deviation");
    coord_t default_support_line_width = infill_extruder.settings_.get<coord_t>("support_line_width");
    if (gcode_layer.getLayerNr() == 0 && mesh_group_settings.get<EPlatformAdhesion>("adhesion_type") != EPlatformAdhesion::RAFT)
    {
        default_support_line_width *= infill_extruder.settings_.get<Ratio>("initial_layer_line_width_factor");
    }
    const auto get_support_pattern = [](const EFillMethod pattern, const int layer_nr)
    {
        if (layer_nr <= 0 && (pattern == EFillMethod::LINES || pattern == EFillMethod::ZIG_ZAG))
        {
            return EFillMethod::GRID;
        }
        return pattern;
    };
    const EFillMethod support_pattern = get_support_pattern(infill_extruder.settings_.get<EFillMethod>("support_pattern"), gcode_layer.getLayerNr());
    const auto zig_zaggify_infill = infill_extruder.settings_.get<bool>("zig_zaggify_support");
    const auto skip_some_zags = infill_extruder.settings_.get<bool>("support_skip_some_zags");
    const auto zag_skip_count = infill_extruder.settings_.get<size_t>("support_zag_skip_count");
    PathOrderOptimizer<const SupportInfillPart*> island_order_optimizer_initial(gcode_layer.getLastPlannedPositionOrStartingPosition());
    PathOrderOptimizer<const SupportInfillPart*> island_order_optimizer(gcode_layer.getLastPlannedPositionOrStartingPosition());
    for (const SupportInfillPart& part : support_layer.support_infill_parts)
    {
        (part.use_fractional_config_ ? island_order_optimizer_initial : island_order_optimizer).addPolygon(&part);
    }
    island_order_optimizer_initial.optimize();
    island_order_optimizer.optimize();
    const auto support_connect_zigzags = infill_extruder.settings_.get<bool>("support_connect_zigzags");
    const auto support_structure = infill_extruder.settings_.get<ESupportStructure>("support_structure");
    const Point2LL infill_origin;
    constexpr bool use_endpieces = true;
    constexpr coord_t pocket_size = 0;
    constexpr bool connect_polygons = false;
    bool need_travel_to_end_of_last_spiral = true;
    for (const PathOrdering<const SupportInfillPart*>& path : ranges::views::concat(island_order_optimizer_initial.paths_, island_order_optimizer.paths_))
    {
        const SupportInfillPart& part = *path.vertices_;
        const auto& configs = part.use_fractional_config_ ? gcode_layer.configs_storage_.support_fractional_infill_config : gcode_layer.configs_storage_.support_infill_config;
        const int current_support_infill_overlap = (part.inset_width_to_generate_ > 0) ? default_support_infill_overlap : 0;
        std::vector<VariableWidthLines> wall_toolpaths = part.wall_toolpaths_;
        if (! wall_toolpaths.empty())
        {
            const GCodePathConfig& config = configs[0];
            constexpr coord_t wipe_dist = 0;
            const LayerIndex layer_nr = gcode_layer.getLayerNr();
            ZSeamConfig z_seam_config
                = ZSeamConfig(EZSeamType::SHORTEST, gcode_layer.getLastPlannedPositionOrStartingPosition(), EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER, false);
            Shape disallowed_area_for_seams{};
            if (infill_extruder.settings_.get<bool>("support_z_seam_away_from_model") && (layer_nr >= 0))
            {
                for (std::shared_ptr<SliceMeshStorage> mesh_ptr : storage.meshes)
                {
                    auto& mesh = *mesh_ptr;
                    for (auto& part : mesh.layers[layer_nr].parts)
                    {
                        disallowed_area_for_seams.push_back(part.print_outline);
                    }
                }
                if (! disallowed_area_for_seams.empty())
                {
                    coord_t min_distance = infill_extruder.settings_.get<coord_t>("support_z_seam_min_distance");
                    disallowed_area_for_seams = disallowed_area_for_seams.offset(min_distance, ClipperLib::jtRound);
                }
            }
            InsetOrderOptimizer wall_orderer(
                storage,
                gcode_layer,
                infill_extruder.settings_,
                extruder_nr,
                config,
                config,
                config,
                config,
                config,
                config,
                config,
                config,
                wipe_dist,
                wipe_dist,
                extruder_nr,
                extruder_nr,
                z_seam_config,
                wall_toolpaths,
                storage.getModelBoundingBox().flatten().getMiddle(),
                disallowed_area_for_seams);
            added_something |= wall_orderer.addToLayer();
        }
        if (default_support_line_distance <= 0 || part.infill_area_per_combine_per_density_.empty())
        {
            continue;
        }
        for (unsigned int combine_idx = 0; combine_idx < part.infill_area_per_combine_per_density_[0].size(); ++combine_idx)
        {
            const coord_t support_line_width = default_support_line_width * (combine_idx + 1);
            Shape support_polygons;
            std::vector<VariableWidthLines> wall_toolpaths_here;
            OpenLinesSet support_lines;
            const size_t max_density_idx = part.infill_area_per_combine_per_density_.size() - 1;
            for (size_t density_idx = max_density_idx; (density_idx + 1) > 0; --density_idx)
            {
                if (combine_idx >= part.infill_area_per_combine_per_density_[density_idx].size())
                {
                    continue;
                }
                const unsigned int density_factor = 2 << density_idx;
                coord_t support_line_distance_here
                    = (part.custom_line_distance_ > 0
                           ? part.custom_line_distance_
                           : default_support_line_distance * density_factor);
                if (support_line_distance_here != 0 && infill_density_multiplier > 1)
                {
                    support_line_distance_here /= (1 << (infill_density_multiplier - 1));
                    support_line_distance_here = std::max(support_line_distance_here, support_line_width);
                }
                const int support_shift = support_line_distance_here / 2;
                if (part.custom_line_distance_ == 0 && (density_idx == max_density_idx || support_pattern == EFillMethod::CROSS || support_pattern == EFillMethod::CROSS_3D))
                {
                    support_line_distance_here /= 2;
                }
                const Shape& area = Simplify(infill_extruder.settings_).polygon(part.infill_area_per_combine_per_density_[density_idx][combine_idx]);
                std::shared_ptr<LightningLayer> lightning_layer;
                if (storage.support.lightning_generator)
                {
                    lightning_layer = std::make_shared<LightningLayer>(storage.support.lightning_generator->getTreesForLayer(std::max(LayerIndex{ 0 }, gcode_layer.getLayerNr())));
                }
                constexpr size_t wall_count = 0;
                const coord_t small_area_width = 0;
                constexpr bool skip_stitching = false;
                const bool fill_gaps = density_idx == 0;
                Infill infill_comp(
                    support_pattern,
                    zig_zaggify_infill,
                    connect_polygons,
                    area,
                    support_line_width,
                    support_line_distance_here,
                    current_support_infill_overlap - (density_idx == max_density_idx ? 0 : wall_thickness),
                    infill_multiplier,
                    support_infill_angle,
                    gcode_layer.z_ + configs[combine_idx].z_offset,
                    support_shift,
                    max_resolution,
                    max_deviation,
                    wall_count,
                    small_area_width,
                    infill_origin,
                    skip_stitching,
                    fill_gaps,
                    support_connect_zigzags,
                    use_endpieces,
                    skip_some_zags,
                    zag_skip_count,
                    pocket_size);
                infill_comp.generate(
                    wall_toolpaths_here,
                    support_polygons,
                    support_lines,
                    infill_extruder.settings_,
                    gcode_layer.getLayerNr(),
                    SectionType::SUPPORT,
                    storage.support.cross_fill_provider,
                    lightning_layer);
            }
            if (need_travel_to_end_of_last_spiral && infill_extruder.settings_.get<bool>("magic_spiralize"))
            {
                if ((! wall_toolpaths.empty() || ! support_polygons.empty() || ! support_lines.empty()))
                {
                    int layer_nr = gcode_layer.getLayerNr();
                    if (layer_nr > (int)infill_extruder.settings_.get<size_t>("initial_bottom_layers"))
                    {
                        const Shape* last_wall_outline = storage.spiralize_wall_outlines[layer_nr - 1];
                        if (last_wall_outline != nullptr)
                        {
                            gcode_layer.addTravel((*last_wall_outline)[0][storage.spiralize_seam_vertex_indices[layer_nr - 1]]);
                            need_travel_to_end_of_last_spiral = false;
                        }
                    }
                }
            }
            gcode_layer.setIsInside(false);
            const bool alternate_inset_direction = infill_extruder.settings_.get<bool>("material_alternate_walls");
            const bool alternate_layer_print_direction = alternate_inset_direction && gcode_layer.getLayerNr() % 2 == 1;
            if (! support_polygons.empty())
            {
                gcode_layer.addTravel(support_polygons[0][0]);
                const ZSeamConfig& z_seam_config = ZSeamConfig();
                constexpr coord_t wall_0_wipe_dist = 0;
                constexpr bool spiralize = false;
                constexpr Ratio flow_ratio = 1.0_r;
                constexpr auto always_retract = ForceRetract::AUTOMATIC;
                const std::optional<Point2LL> start_near_location = std::optional<Point2LL>();
                gcode_layer.addPolygonsByOptimizer(
                    support_polygons,
                    configs[combine_idx],
                    mesh_group_settings,
                    z_seam_config,
                    wall_0_wipe_dist,
                    spiralize,
                    flow_ratio,
                    always_retract,
                    alternate_layer_print_direction,
                    start_near_location);
                added_something = true;
            }
            if (! support_lines.empty())
            {
                constexpr bool enable_travel_optimization = false;
                constexpr coord_t wipe_dist = 0;
                constexpr Ratio flow_ratio = 1.0;
                const std::optional<Point2LL> near_start_location = std::optional<Point2LL>();
                constexpr double fan_speed = GCodePathConfig::FAN_SPEED_DEFAULT;
                gcode_layer.addLinesByOptimizer(
                    support_lines,
                    configs[combine_idx],
                    (support_pattern == EFillMethod::ZIG_ZAG) ? SpaceFillType::PolyLines : SpaceFillType::Lines,
                    enable_travel_optimization,
                    wipe_dist,
                    flow_ratio,
                    near_start_location,
                    fan_speed,
                    alternate_layer_print_direction);
                added_something = true;
            }
            if (wall_thickness == 0 || ! wall_toolpaths_here.empty())
            {
                const GCodePathConfig& config = configs[0];
                constexpr coord_t wipe_dist = 0;
                constexpr coord_t simplify_curvature = 0;
                const ZSeamConfig z_seam_config(
                    EZSeamType::SHORTEST,
                    gcode_layer.getLastPlannedPositionOrStartingPosition(),
                    EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER,
                    simplify_curvature);
                InsetOrderOptimizer wall_orderer(
                    storage,
                    gcode_layer,
                    infill_extruder.settings_,
                    extruder_nr,
                    config,
                    config,
                    config,
                    config,
                    config,
                    config,
                    config,
                    config,
                    wipe_dist,
                    wipe_dist,
                    extruder_nr,
                    extruder_nr,
                    z_seam_config,
                    wall_toolpaths_here,
                    storage.getModelBoundingBox().flatten().getMiddle());
                added_something |= wall_orderer.addToLayer();
            }
        }
    }
    return added_something;
}
//END
}
