// Application.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "Application.h"
#include "ExtruderTrain.h"
#include "FffProcessor.h"
#include "MeshGroup.h"
#include "Slice.h"
#include "TextureDataProvider.h"
#include "communication/ArcusCommunication.h"
#include "communication/CommandLine.h"
#include "communication/EmscriptenCommunication.h"
#include "geometry/ClosedLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Shape.h"
#include "geometry/Triangle2F.h"
#include "geometry/Triangle3LL.h"
#include "mesh.h"
#include "progress/Progress.h"
#include "settings/SettingContainersEnvironmentAdapter.h"
#include "settings/Settings.h"
#include "slicer.h"
#include "utils/Matrix4x3D.h"
#include "utils/MeshUtils.h"
#include "utils/OpenPolylineStitcher.h"
#include "utils/Point3D.h"
#include "utils/Simplify.h"
#include "utils/SpatialLookup.h"
#include "utils/ThreadPool.h"
#include "utils/VoxelGrid.h"
#include "utils/format/filesystem_path.h"
#include "utils/string.h"
#include "utils/views/split_paths.h"
#include <boost/unordered/concurrent_flat_map.hpp>
#include <boost/unordered/concurrent_flat_set.hpp>
#include <boost/uuid/random_generator.hpp> //For generating a UUID.
#include <boost/uuid/uuid_io.hpp> //For generating a UUID.
#include <cerrno> // error number when trying to read file
#include <chrono>
#include <cstdlib>
#include <cstring> //For strtok and strcopy.
#include <cura-formulae-engine/parser/parser.h>
#include <execution>
#include <filesystem>
#include <fmt/format.h>
#include <fmt/ranges.h>
#include <fstream> //To check if files exist.
#include <iostream> //To change the formatting of std::cerr.
#include <memory>
#include <numeric> //For std::accumulate.
#include <optional>
#include <range/v3/algorithm/contains.hpp>
#include <range/v3/algorithm/move.hpp>
#include <range/v3/all.hpp>
#include <range/v3/numeric/accumulate.hpp>
#include <range/v3/range/conversion.hpp>
#include <range/v3/view/concat.hpp>
#include <range/v3/view/map.hpp>
#include <rapidjson/error/en.h> //Loading JSON documents to get settings from them.
#include <rapidjson/rapidjson.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>
#include <semver.hpp>
#include <sentry.h>
#include <signal.h> //For floating point exceptions.
#include <spdlog/cfg/helpers.h>
#include <spdlog/details/os.h>
#include <spdlog/details/registry.h>
#include <spdlog/sinks/dup_filter_sink.h>
#include <spdlog/sinks/stdout_color_sinks.h>
#include <spdlog/spdlog.h>
#include <spdlog/stopwatch.h>
#include <string>
#include <string_view>
#include <sys/resource.h> //For setpriority.
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::Application::Application
void r1(cura::Application& self)
{
        member(self.instance_uuid_) = boost::uuids::to_string(boost::uuids::random_generator()());
    auto dup_sink = std::make_shared<spdlog::sinks::dup_filter_sink_mt>(std::chrono::seconds{ 10 });
    auto base_sink = std::make_shared<spdlog::sinks::stdout_color_sink_mt>();
    dup_sink->add_sink(base_sink); 
    if (auto spdlog_val = spdlog::details::os::getenv("CURAENGINE_LOG_LEVEL"); ! spdlog_val.empty())
    {
    };
}

//= cura::Application::getInstance
Application& r2()
{
    static Application instance; 
    return instance;
}

//= cura::Application::printCall
void r3(const cura::Application& self)
{
}

//= cura::Application::printHelp
void r4(const cura::Application& self)
{
    fmt::print("\n");
    fmt::print("usage:\n");
    fmt::print("CuraEngine help\n");
    fmt::print("\tShow this help message\n");
    fmt::print("\n");
#ifdef ARCUS
    fmt::print("CuraEngine connect <host>[:<port>] [-j <settings.def.json>]\n");
    fmt::print("  --connect <host>[:<port>]\n\tConnect to <host> via a command socket, \n\tinstead of passing information via the command line\n");
    fmt::print("  -v\n\tIncrease the verbose level (show log messages).\n");
    fmt::print("  -m<thread_count>\n\tSet the desired number of threads. Supports only a single digit.\n");
    fmt::print("\n");
#endif 
    fmt::print("CuraEngine slice [-v] [-p] [-j <settings.json>] [-s <settingkey>=<value>] [-g] [-e<extruder_nr>] [-o <output.gcode>] [-l <model.stl>] [--next]\n");
    fmt::print("  -v\n\tIncrease the verbose level (show log messages).\n");
    fmt::print("  -m<thread_count>\n\tSet the desired number of threads.\n");
    fmt::print("  -p\n\tLog progress information.\n");
    fmt::print("  -d Add definition search paths seperated by a `:` (Unix) or `;` (Windows)\n");
    fmt::print("  -j\n\tLoad settings.def.json file to register all settings and their defaults.\n");
    fmt::print("  -r\n\tLoad a json file containing resolved setting values.\n");
    fmt::print("  -s <setting>=<value>\n\tSet a setting to a value for the last supplied object, \n\textruder train, or general settings.\n");
    fmt::print("  -l <model_file>\n\tLoad an STL model. \n");
    fmt::print("  -g\n\tSwitch setting focus to the current mesh group only.\n\tUsed for one-at-a-time printing.\n");
    fmt::print("  -e<extruder_nr>\n\tSwitch setting focus to the extruder train with the given number.\n");
    fmt::print("  --next\n\tGenerate gcode for the previously supplied mesh group and append that to \n\tthe gcode of further models for one-at-a-time printing.\n");
    fmt::print("  -o <output_file>\n\tSpecify a file to which to write the generated gcode.\n");
    fmt::print("\n");
    fmt::print("The settings are appended to the last supplied object:\n");
    fmt::print("CuraEngine slice [general settings] \n\t-g [current group settings] \n\t-e0 [extruder train 0 settings] \n\t-l obj_inheriting_from_last_extruder_train.stl [object "
               "settings] \n\t--next [next group settings]\n\t... etc.\n");
    fmt::print("\n");
    fmt::print("In order to load machine definitions from custom locations, you need to create the environment variable CURA_ENGINE_SEARCH_PATH, which should contain all search "
               "paths delimited by a (semi-)colon.\n");
    fmt::print("\n");
}

//= cura::Application::printHeader
void r5(const cura::Application& self)
{
    fmt::print("\n");
    fmt::print("Cura_SteamEngine version {}\n", CURA_ENGINE_VERSION);
#ifdef DEBUG
    fmt::print("\n");
    fmt::print(" _______   ________  _______   __    __   ______\n");
    fmt::print("/       \\ /        |/       \\ /  |  /  | /      \\\n");
    fmt::print("███████  |████████/ ███████  |██ |  ██ |/██████  |\n");
    fmt::print("██ |  ██ |██ |__    ██ |__██ |██ |  ██ |██ | _██/\n");
    fmt::print("██ |  ██ |██    |   ██    ██< ██ |  ██ |██ |/    |\n");
    fmt::print("██ |  ██ |█████/    ███████  |██ |  ██ |██ |████ |\n");
    fmt::print("██ |__██ |██ |_____ ██ |__██ |██ \\__██ |██ \\__██ |\n");
    fmt::print("██    ██/ ██       |██    ██/ ██    ██/ ██    ██/\n");
    fmt::print("███████/  ████████/ ███████/   ██████/   ██████/\n");
    fmt::print("\n");
    fmt::print(" __       __   ______   _______   ________\n");
    fmt::print("/  \\     /  | /      \\ /       \\ /        |\n");
    fmt::print("██  \\   /██ |/██████  |███████  |████████/\n");
    fmt::print("███  \\ /███ |██ |  ██ |██ |  ██ |██ |__\n");
    fmt::print("████  /████ |██ |  ██ |██ |  ██ |██    |\n");
    fmt::print("██ ██ ██/██ |██ |  ██ |██ |  ██ |█████/\n");
    fmt::print("██ |███/ ██ |██ \\__██ |██ |__██ |██ |_____\n");
    fmt::print("██ | █/  ██ |██    ██/ ██    ██/ ██       |\n");
    fmt::print("██/      ██/  ██████/  ███████/  ████████/\n");
    fmt::print("\n");
    fmt::print("#########################################################\n");
    fmt::print("#########################################################\n");
    fmt::print("## WARNING: This version of CuraEngine has been built  ##\n");
    fmt::print("## in developper mode. This may impact performances,   ##\n");
    fmt::print("## provoke unexpected results or crashes.              ##\n");
    fmt::print("## If you downloaded an official version of CuraEngine ##\n");
    fmt::print("## and see (&self) message, please report the issue.      ##\n");
    fmt::print("#########################################################\n");
    fmt::print("#########################################################\n");
#endif
}

//= cura::Application::slice
void r7(cura::Application& self)
{
    std::vector<std::string> arguments;
    for (size_t argument_index = 0; argument_index < self.argc_; argument_index++)
    {
        arguments.emplace_back(self.argv_[argument_index]);
    }
#ifdef __EMSCRIPTEN__
    self.communication_ = std::make_shared<EmscriptenCommunication>(arguments);
#else
    self.communication_ = std::make_shared<CommandLine>(arguments);
#endif
}

//= cura::Application::run
void r8(cura::Application& self, const size_t argc, char** argv)
{
    self.argc_ = argc;
    self.argv_ = argv;
    self.printHeader();
    self.printLicense();
    Progress::init();
    if (argc < 2)
    {
        self.printHelp();
        exit(1);
    }
#ifdef ARCUS
    if (stringcasecompare(argv[1], "connect") == 0)
    {
        connect();
    }
    else
#endif 
        if (stringcasecompare(argv[1], "slice") == 0)
        {
            self.slice();
        }
        else if (stringcasecompare(argv[1], "help") == 0)
        {
            self.printHelp();
        }
        else
        {
            self.printCall();
            self.printHelp();
            exit(1);
        }
    if (! self.communication_)
    {
        exit(0);
    }
    self.startThreadPool(); 
    while (self.communication_->hasSlice())
    {
        self.communication_->sliceNext();
    }
}

//= cura::Application::startThreadPool
void r9(cura::Application& self, int nworkers)
{
    size_t nthreads;
    if (nworkers <= 0)
    {
        if (self.thread_pool_)
        {
            return; 
        }
        nthreads = std::thread::hardware_concurrency() - 1;
    }
    else
    {
        nthreads = nworkers - 1; 
    }
#ifndef __EMSCRIPTEN__
    delete self.tbb_controller_;
    self.tbb_controller_ = new tbb::global_control(tbb::global_control::max_allowed_parallelism, nthreads + 1);
#endif
    if (self.thread_pool_ && self.thread_pool_->thread_count() == nthreads)
    {
        return; 
    }
    delete self.thread_pool_;
    self.thread_pool_ = new ThreadPool(nthreads);
}

//= cura::MeshMaterialSplitter::makeVoxelGridFromTexture
boost::concurrent_flat_set<uint8_t> r12(const Mesh& mesh, const std::shared_ptr<TextureDataProvider>& texture_data_provider, const std::string& texture_feature, VoxelGrid& voxel_grid, const uint8_t default_value, const std::unordered_set<size_t>& authorized_values)
{
    boost::concurrent_flat_set<uint8_t> found_values;
    cura::parallel_for(
        mesh.faces_,
        [&](const auto& iterator)
        {
            const MeshFace& face = *iterator;
            const std::optional<Point2F> uv0 = face.uv_coordinates_[0];
            const std::optional<Point2F> uv1 = face.uv_coordinates_[1];
            const std::optional<Point2F> uv2 = face.uv_coordinates_[2];
            if (! uv0.has_value() || ! uv1.has_value() || ! uv2.has_value())
            {
                return;
            }
            const Triangle2F face_uvs{ uv0.value(), uv1.value(), uv2.value() };
            const Triangle3LL triangle{ mesh.vertices_[face.vertex_index_[0]].p_, mesh.vertices_[face.vertex_index_[1]].p_, mesh.vertices_[face.vertex_index_[2]].p_ };
            for (const VoxelGrid::LocalCoordinates& traversed_voxel : voxel_grid.getTraversedVoxels(triangle))
            {
                const Point3D global_position = voxel_grid.toGlobalCoordinates(traversed_voxel);
                const Point3LL global_position_ll = Point3LL(std::llrint(global_position.x_), std::llrint(global_position.y_), std::llrint(global_position.z_));
                const std::optional<Point3D> barycentric_coordinates = MeshUtils::getBarycentricCoordinates(global_position_ll, triangle);
                if (! barycentric_coordinates.has_value() || barycentric_coordinates.value().x_ < 0 || barycentric_coordinates.value().y_ < 0
                    || barycentric_coordinates.value().z_ < 0)
                {
                    continue;
                }
                const Point2F point_uv_coords = MeshUtils::getUVCoordinates(barycentric_coordinates.value(), face_uvs);
                const std::pair<size_t, size_t> pixel = texture_data_provider->getTexture()->getPixelCoordinates(Point2F(point_uv_coords.x_, point_uv_coords.y_));
                std::optional<uint32_t> texture_value = texture_data_provider->getValue(std::get<0>(pixel), std::get<1>(pixel), texture_feature);
                if (! texture_value.has_value() || ! authorized_values.contains(texture_value.value()))
                {
                    texture_value = default_value;
                }
                voxel_grid.setOrUpdateOccupation(traversed_voxel, texture_value.value());
                found_values.insert(texture_value.value());
            }
        });
    return found_values;
}

//= cura::MeshMaterialSplitter::applyMeshExtruders
std::vector<Mesh> r14(std::map<uint8_t, Mesh>& meshes)
{
    std::vector<Mesh> output_meshes;
    for (auto& [extruder_nr, mesh] : meshes)
    {
        mesh.settings_.add("cutting_mesh", "true");
        mesh.settings_.add("extruder_nr", std::to_string(extruder_nr));
        output_meshes.push_back(std::move(mesh));
    }
    return output_meshes;
}

//= cura::MeshMaterialSplitter::applyMeshSupport
std::vector<Mesh> r15(std::map<uint8_t, Mesh>& meshes)
{
    std::vector<Mesh> output_meshes;
    for (auto& [support_value, mesh] : meshes)
    {
        if (support_value == 1)
        {
            mesh.settings_.add("force_support_overhang_mesh", "true");
            output_meshes.push_back(std::move(mesh));
        }
        else if (support_value == 2)
        {
            mesh.settings_.add("anti_overhang_mesh", "true");
            output_meshes.push_back(std::move(mesh));
        }
    }
    return output_meshes;
}

//= cura::MeshMaterialSplitter::sliceMesh
std::vector<Shape> r16(const Mesh& mesh, const VoxelGrid& rasterized_mesh)
{
    const coord_t thickness = rasterized_mesh.getResolution().z_;
    const coord_t initial_layer_thickness = thickness;
    constexpr bool use_variable_layer_heights = false;
    constexpr std::vector<AdaptiveLayer>* adaptive_layers = nullptr;
    constexpr SlicingTolerance slicing_tolerance = SlicingTolerance::INCLUSIVE;
    AABB3D mesh_bounding_box = mesh.getAABB();
    const size_t margin_below_mesh = rasterized_mesh.toLocalZ(std::max(mesh_bounding_box.min_.z_, static_cast<coord_t>(0)));
    const size_t slice_layer_count = rasterized_mesh.toLocalZ(mesh_bounding_box.max_.z_) - margin_below_mesh + 1;
    const double xy_offset = INT2MM(std::max(rasterized_mesh.getResolution().x_, rasterized_mesh.getResolution().y_) * 2);
    Mesh sliced_mesh = mesh;
    sliced_mesh.settings_.add("xy_offset", std::to_string(xy_offset));
    sliced_mesh.settings_.add("xy_offset_layer_0", std::to_string(xy_offset));
    sliced_mesh.settings_.add("hole_xy_offset", "0");
    sliced_mesh.settings_.add("hole_xy_offset_max_diameter", "0");
    Slicer slicer(&sliced_mesh, thickness, slice_layer_count, use_variable_layer_heights, adaptive_layers, slicing_tolerance, initial_layer_thickness);
    std::vector<Shape> slices;
    for (std::ptrdiff_t layer_index = 0; layer_index < rasterized_mesh.getSlicesCount().z_; ++layer_index)
    {
        Shape expanded_shape;
        for (std::ptrdiff_t delta = -2; delta <= 2; ++delta)
        {
            std::ptrdiff_t union_layer_index = layer_index + delta - margin_below_mesh;
            if (union_layer_index >= 0 && static_cast<size_t>(union_layer_index) < slicer.layers.size())
            {
                expanded_shape = expanded_shape.unionPolygons(slicer.layers[union_layer_index].polygons_);
            }
        }
        slices.push_back(expanded_shape);
    }
    return slices;
}

//= cura::MeshMaterialSplitter::isInside
bool r17(const VoxelGrid& voxel_grid, const VoxelGrid::LocalCoordinates& position, const std::vector<Shape>& sliced_mesh)
{
    const Point3D global_position = voxel_grid.toGlobalCoordinates(position);
    constexpr bool border_result = true;
    return sliced_mesh.at(position.position.z).inside(Point2LL(global_position.x_, global_position.y_), border_result);
}

//= cura::MeshMaterialSplitter::findBoundaryVoxels
void r20(boost::concurrent_flat_set<VoxelGrid::LocalCoordinates>& evaluated_voxels, const VoxelGrid& voxel_grid)
{
    evaluated_voxels.erase_if(
#ifdef __cpp_lib_execution
        std::execution::par,
#endif
        [&voxel_grid](const VoxelGrid::LocalCoordinates& evaluated_voxel)
        {
            bool has_various_voxels_around = false;
            const uint8_t actual_occupation = voxel_grid.getOccupation(evaluated_voxel).value();
            for (const VoxelGrid::LocalCoordinates& voxel_around : voxel_grid.getVoxelsAround(evaluated_voxel))
            {
                const std::optional<uint8_t> around_occupation = voxel_grid.getOccupation(voxel_around);
                if (around_occupation.has_value() && around_occupation.value() != actual_occupation)
                {
                    has_various_voxels_around = true;
                    break;
                }
            }
            return ! has_various_voxels_around;
        });
}

//= cura::signal_FPE
void r26(int n)
{
    (void)n;
    exit(1);
}

//= cura::CommandLine::CommandLine
void r28(cura::CommandLine& self, const std::vector<std::string>& arguments)
{
        member(self.arguments_) = {arguments};
        member(self.last_shown_progress_) = {0};
        member(self.output_stream_) = &std::cout;
    if (auto search_paths = spdlog::details::os::getenv("CURA_ENGINE_SEARCH_PATH"); ! search_paths.empty())
    {
        self.search_directories_ = search_paths | views::split_paths | ranges::to<std::vector<std::filesystem::path>>();
    };
}

//= cura::CommandLine::sendGCodePart
void r29(cura::CommandLine& self, const std::string& gcode_part)
{
    *self.output_stream_ << gcode_part;
}

//= cura::CommandLine::sendCurrentPosition
void r30(cura::CommandLine& self, const Point3LL&)
{
}

//= cura::CommandLine::sendFinishedSlicing
void r31(const cura::CommandLine& self)
{
}

//= cura::CommandLine::sendLayerComplete
void r32(cura::CommandLine& self, const LayerIndex::value_type&, const coord_t&, const coord_t&)
{
}

//= cura::CommandLine::sendLineTo
void r33(cura::CommandLine& self, const PrintFeatureType&, const Point3LL&, const coord_t&, const coord_t&, const Velocity&)
{
}

//= cura::CommandLine::sendOptimizedLayerData
void r34(cura::CommandLine& self)
{
}

//= cura::CommandLine::setExtruderForSend
void r35(cura::CommandLine& self, const ExtruderTrain&)
{
}

//= cura::CommandLine::setLayerForSend
void r36(cura::CommandLine& self, const LayerIndex::value_type&)
{
}

//= cura::CommandLine::hasSlice
bool r37(const cura::CommandLine& self)
{
    return ! self.arguments_.empty();
}

//= cura::CommandLine::sendSliceUUID
void r38(const cura::CommandLine& self, [[maybe_unused]] const std::string& slice_uuid)
{
}

//= cura::CommandLine::sendPrintInformation
void r39(const cura::CommandLine& self, const std::vector<cura::Duration>& time_estimates, const PrintInformation& print_information)
{
    double sum = ranges::accumulate(time_estimates, 0.0);
}

//= cura::CommandLine::sendProgress
void r40(const cura::CommandLine& self, double progress)
{
    const unsigned int rounded_amount = 100 * progress;
    if (self.last_shown_progress_ == rounded_amount) 
    {
        return;
    }
}

//= cura::CommandLine::loadJSON
int r42(cura::CommandLine& self, const std::filesystem::path& json_filename, Settings& settings, bool force_read_parent, bool force_read_nondefault)
{
    std::ifstream file(json_filename, std::ios::binary);
    if (! file)
    {
        return 1;
    }
    std::vector<char> read_buffer(std::istreambuf_iterator<char>(file), {});
    rapidjson::MemoryStream memory_stream(read_buffer.data(), read_buffer.size());
    rapidjson::Document json_document;
    json_document.ParseStream(memory_stream);
    if (json_document.HasParseError())
    {
        return 2;
    }
    self.search_directories_.push_back(std::filesystem::path(json_filename).parent_path());
    return self.loadJSON(json_document, self.search_directories_, settings, force_read_parent, force_read_nondefault);
}

//= cura::CommandLine::loadJSON
int r43(cura::CommandLine& self, const rapidjson::Document& document, const std::vector<std::filesystem::path>& search_directories, Settings& settings, bool force_read_parent, bool force_read_nondefault)
{
    if (document.HasMember("inherits") && document["inherits"].IsString())
    {
        std::string parent_file = self.findDefinitionFile(document["inherits"].GetString(), search_directories);
        if (parent_file.empty())
        {
            return 1;
        }
        if (const auto error_code = self.loadJSON(parent_file, settings, force_read_parent, force_read_nondefault); error_code != 0)
        {
            return error_code;
        }
    }
    Scene& scene = Application::getInstance().current_slice_->scene;
    if (document.HasMember("metadata") && document["metadata"].IsObject())
    {
        const rapidjson::Value& metadata = document["metadata"];
        if (metadata.HasMember("machine_extruder_trains") && metadata["machine_extruder_trains"].IsObject())
        {
            const rapidjson::Value& extruder_trains = metadata["machine_extruder_trains"];
            for (rapidjson::Value::ConstMemberIterator extruder_train = extruder_trains.MemberBegin(); extruder_train != extruder_trains.MemberEnd(); extruder_train++)
            {
                const int extruder_nr = atoi(extruder_train->name.GetString());
                if (extruder_nr < 0)
                {
                    continue;
                }
                while (scene.extruders.size() <= static_cast<size_t>(extruder_nr))
                {
                    scene.extruders.emplace_back(scene.extruders.size(), &scene.settings);
                }
                const rapidjson::Value& extruder_id = extruder_train->value;
                if (! extruder_id.IsString())
                {
                    continue;
                }
                const std::string extruder_definition_id(extruder_id.GetString());
                const std::string extruder_file = self.findDefinitionFile(extruder_definition_id, search_directories);
                self.loadJSON(extruder_file, scene.extruders[extruder_nr].settings_, force_read_parent, force_read_nondefault);
            }
        }
    }
    if (document.HasMember("settings") && document["settings"].IsObject())
    {
        self.loadJSONSettings(document["settings"], settings, force_read_parent, force_read_nondefault);
    }
    if (document.HasMember("overrides") && document["overrides"].IsObject())
    {
        self.loadJSONSettings(document["overrides"], settings, force_read_parent, force_read_nondefault);
    }
    return 0;
}

//= cura::CommandLine::readResolvedJsonValues
std::optional<container_setting_map> r46(const std::filesystem::path& json_filename)
{
    std::ifstream file(json_filename, std::ios::binary);
    if (! file)
    {
        return std::nullopt;
    }
    std::vector<char> read_buffer(std::istreambuf_iterator<char>(file), {});
    rapidjson::MemoryStream memory_stream(read_buffer.data(), read_buffer.size());
    rapidjson::Document json_document;
    json_document.ParseStream(memory_stream);
    if (json_document.HasParseError())
    {
        return std::nullopt;
    }
    return cura::CommandLine::readResolvedJsonValues(json_document);
}

//= cura::CommandLine::findDefinitionFile
std::string r48(const std::string& definition_id, const std::vector<std::filesystem::path>& search_directories)
{
    for (const auto& search_directory : search_directories)
    {
        if (auto candidate = search_directory / (definition_id + ".def.json"); std::filesystem::exists(candidate))
        {
            return candidate.string();
        }
    }
    return {};
}

//= cura::SettingContainersEnvironmentAdapter::hasImpl
bool r51(const cura::SettingContainersEnvironmentAdapter& self, const std::string& key)
{
    constexpr bool parent_lookup = true;
    return self.settings_.has(key, parent_lookup);
}

//END
}  // namespace ref
