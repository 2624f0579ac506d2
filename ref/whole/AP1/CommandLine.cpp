// What the functions of this unit compute.
#include "communication/CommandLine.h"
#include <cerrno>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <numeric>
#include <optional>
#include <rapidjson/error/en.h>
#include <rapidjson/rapidjson.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <range/v3/all.hpp>
#include <spdlog/details/os.h>
#include <spdlog/spdlog.h>
#include "Application.h"
#include "ExtruderTrain.h"
#include "FffProcessor.h"
#include "MeshGroup.h"
#include "Slice.h"
#include "utils/Matrix4x3D.h"
#include "utils/format/filesystem_path.h"
#include "utils/views/split_paths.h"
namespace fs = std::filesystem;
namespace cura
{
//= cura::CommandLine::sliceNext
void CommandLine::sliceNext()
{
    FffProcessor::getInstance()->time_keeper.restart();
    size_t num_mesh_groups = 1;
    for (size_t argument_index = 2; argument_index < arguments_.size(); argument_index++)
    {
        if (arguments_[argument_index].starts_with("--next"))
        {
            num_mesh_groups++;
        }
    }
    Application::getInstance().current_slice_ = std::make_shared<Slice>(num_mesh_groups);
    auto slice = Application::getInstance().current_slice_;
    size_t mesh_group_index = 0;
    Settings* last_settings = &slice->scene.settings;
    slice->scene.extruders.reserve(arguments_.size() >> 1);
    slice->scene.extruders.emplace_back(0, &slice->scene.settings);
    ExtruderTrain* last_extruder = slice->scene.extruders.data();
    bool force_read_parent = false;
    bool force_read_nondefault = false;
    for (size_t argument_index = 2; argument_index < arguments_.size(); argument_index++)
    {
        std::string argument = arguments_[argument_index];
        if (argument[0] == '-')
        {
            if (argument[1] == '-')
            {
                if (argument.starts_with("--next"))
                {
                    try
                    {
                        spdlog::info("Loaded from disk in {}", FffProcessor::getInstance()->time_keeper.restart());
                        mesh_group_index++;
                        FffProcessor::getInstance()->time_keeper.restart();
                        last_settings = &slice->scene.mesh_groups[mesh_group_index].settings;
                    }
                    catch (...)
                    {
                        spdlog::error("Unknown exception!");
                        exit(1);
                    }
                }
                else if (argument.starts_with("--force-read-parent") || argument.starts_with("--force_read_parent"))
                {
                    spdlog::info("From this point on, force the parser to read values of non-leaf settings, instead of skipping over them as is proper.");
                    force_read_parent = true;
                }
                else if (argument.starts_with("--force-read-nondefault") || argument.starts_with("--force_read_nondefault"))
                {
                    spdlog::info(
                        "From this point on, if 'default_value' is not available, force the parser to read 'value' (instead of dropping it) to fill the used setting-values.");
                    force_read_nondefault = true;
                }
                else if (argument.starts_with("--end-force-read") || argument.starts_with("--end_force_read"))
                {
                    spdlog::info("From this point on, reset all force-XXX values to false (don't 'force read ___' anymore).");
                    force_read_parent = false;
                    force_read_nondefault = false;
                }
                else if (
                    argument.starts_with("--progress_cb") || argument.starts_with("--slice_info_cb") || argument.starts_with("--gcode_header_cb")
                    || argument.starts_with("--engine_info_cb"))
                {
                    argument_index++;
                    argument = arguments_[argument_index];
                }
                else
                {
                    spdlog::error("Unknown option: {}", argument);
                }
            }
            else
            {
                argument = arguments_[argument_index];
                switch (argument[1])
                {
                case 'v':
                {
                    spdlog::set_level(spdlog::level::debug);
                    break;
                }
                case 'm':
                {
                    int threads = stoi(argument.substr(2));
                    Application::getInstance().startThreadPool(threads);
                    break;
                }
                case 'p':
                {
                    break;
                }
                case 'd':
                {
                    argument_index++;
                    if (argument_index >= arguments_.size())
                    {
                        spdlog::error("Missing definition search paths");
                        exit(1);
                    }
                    argument = arguments_[argument_index];
                    search_directories_ = argument | views::split_paths | ranges::to<std::vector<std::filesystem::path>>();
                    break;
                }
                case 'j':
                {
                    argument_index++;
                    if (argument_index >= arguments_.size())
                    {
                        spdlog::error("Missing JSON file with -j argument.");
                        exit(1);
                    }
                    argument = arguments_[argument_index];
                    if (loadJSON(std::filesystem::path{ argument }, *last_settings, force_read_parent, force_read_nondefault) != 0)
                    {
                        spdlog::error("Failed to load JSON file: {}", argument);
                        exit(1);
                    }
                    if (last_settings == &slice->scene.settings)
                    {
                        const auto extruder_count = slice->scene.settings.get<size_t>("machine_extruder_count");
                        while (slice->scene.extruders.size() < extruder_count)
                        {
                            slice->scene.extruders.emplace_back(slice->scene.extruders.size(), &slice->scene.settings);
                        }
                    }
                    if (last_settings == &last_extruder->settings_)
                    {
                        last_extruder->settings_.add("extruder_nr", std::to_string(last_extruder->extruder_nr_));
                    }
                    break;
                }
                case 'e':
                {
                    size_t extruder_nr = stoul(argument.substr(2));
                    while (slice->scene.extruders.size() <= extruder_nr)
                    {
                        slice->scene.extruders.emplace_back(extruder_nr, &slice->scene.settings);
                    }
                    last_settings = &slice->scene.extruders[extruder_nr].settings_;
                    last_settings->add("extruder_nr", argument.substr(2));
                    last_extruder = &slice->scene.extruders[extruder_nr];
                    break;
                }
                case 'l':
                {
                    argument_index++;
                    if (argument_index >= arguments_.size())
                    {
                        spdlog::error("Missing model file with -l argument.");
                        exit(1);
                    }
                    argument = arguments_[argument_index];
                    const auto transformation = last_settings->get<Matrix4x3D>("mesh_rotation_matrix");
                    if (! loadMeshIntoMeshGroup(&slice->scene.mesh_groups[mesh_group_index], argument, transformation, last_extruder->settings_))
                    {
                        spdlog::error("Failed to load model: {} (error number {})", argument, errno);
                        exit(1);
                    }
                    else
                    {
                        last_settings = &slice->scene.mesh_groups[mesh_group_index].meshes.back().settings_;
                    }
                    break;
                }
                case 'o':
                {
                    argument_index++;
                    if (argument_index >= arguments_.size())
                    {
                        spdlog::error("Missing output file with -o argument.");
                        exit(1);
                    }
                    argument = arguments_[argument_index];
                    output_file_ = std::make_shared<std::ofstream>();
                    output_file_->open(argument);
                    if (output_file_->is_open())
                    {
                        output_stream_ = output_file_.get();
                    }
                    else
                    {
                        spdlog::error("Failed to open {} for output.", argument);
                        exit(1);
                    }
                    break;
                }
                case 'g':
                {
                    last_settings = &slice->scene.mesh_groups[mesh_group_index].settings;
                    break;
                }
                case 's':
                {
                    argument_index++;
                    if (argument_index >= arguments_.size())
                    {
                        spdlog::error("Missing setting name and value with -s argument.");
                        exit(1);
                    }
                    argument = arguments_[argument_index];
                    const size_t value_position = argument.find('=');
                    std::string key = argument.substr(0, value_position);
                    if (value_position == std::string::npos)
                    {
                        spdlog::error("Missing value in setting argument: -s {}", argument);
                        exit(1);
                    }
                    std::string value = argument.substr(value_position + 1);
                    last_settings->add(key, value);
                    break;
                }
                case 'r':
                {
                    argument_index++;
                    if (argument_index >= arguments_.size())
                    {
                        spdlog::error("Missing setting name and value with -r argument.");
                        exit(1);
                    }
                    argument = arguments_[argument_index];
                    const fs::path settings_path(argument);
                    const fs::path settings_folder(settings_path.parent_path());
                    const auto settings = readResolvedJsonValues(settings_path);
                    if (! settings.has_value())
                    {
                        spdlog::error("Failed to load JSON file: {}", argument);
                        exit(1);
                    }
                    constexpr std::string_view global_identifier = "global";
                    constexpr std::string_view extruder_identifier = "extruder.";
                    constexpr std::string_view limit_to_extruder_identifier = "limit_to_extruder";
                    std::unordered_map<std::string, std::string> global_settings;
                    container_setting_map extruder_settings;
                    container_setting_map model_settings;
                    std::unordered_map<std::string, std::string> limit_to_extruder;
                    for (const auto& [key, values] : settings.value())
                    {
                        if (key == global_identifier)
                        {
                            global_settings = values;
                        }
                        else if (key.starts_with(extruder_identifier))
                        {
                            extruder_settings[key] = values;
                        }
                        else if (key == limit_to_extruder_identifier)
                        {
                            limit_to_extruder = values;
                        }
                        else
                        {
                            model_settings[key] = values;
                        }
                    }
                    for (const auto& [setting_key, setting_value] : global_settings)
                    {
                        slice->scene.settings.add(setting_key, setting_value);
                    }
                    for (const auto& [key, values] : extruder_settings)
                    {
                        const auto extruder_nr = std::stoi(key.substr(extruder_identifier.size()));
                        while (slice->scene.extruders.size() <= static_cast<size_t>(extruder_nr))
                        {
                            slice->scene.extruders.emplace_back(extruder_nr, &slice->scene.settings);
                        }
                        for (const auto& [setting_key, setting_value] : values)
                        {
                            slice->scene.extruders[extruder_nr].settings_.add(setting_key, setting_value);
                        }
                    }
                    for (const auto& [key, values] : model_settings)
                    {
                        const auto& model_name = key;
                        for (const auto& [setting_key, setting_value] : values)
                        {
                            slice->scene.mesh_groups[mesh_group_index].settings.add(setting_key, setting_value);
                        }
                        const auto transformation = slice->scene.mesh_groups[mesh_group_index].settings.get<Matrix4x3D>("mesh_rotation_matrix");
                        const auto extruder_nr = slice->scene.mesh_groups[mesh_group_index].settings.get<size_t>("extruder_nr");
                        if (! loadMeshIntoMeshGroup(
                                &slice->scene.mesh_groups[mesh_group_index],
                                settings_folder / model_name,
                                transformation,
                                slice->scene.extruders[extruder_nr].settings_))
                        {
                            spdlog::error("Failed to load model: {} (error number {})", model_name, errno);
                            exit(1);
                        }
                    }
                    for (const auto& [key, value] : limit_to_extruder)
                    {
                        const auto extruder_nr = std::stoi(value.substr(extruder_identifier.size()));
                        if (extruder_nr >= 0)
                        {
                            slice->scene.limit_to_extruder[key] = &slice->scene.extruders[extruder_nr];
                        }
                    }
                    break;
                }
                default:
                {
                    spdlog::error("Unknown option: -{}", argument[1]);
                    Application::getInstance().printCall();
                    Application::getInstance().printHelp();
                    exit(1);
                }
                }
            }
        }
        else
        {
            spdlog::error("Unknown option: {}", argument);
            Application::getInstance().printCall();
            Application::getInstance().printHelp();
            exit(1);
        }
    }
    arguments_.clear();
#ifndef DEBUG
    try
    {
#endif
        slice->scene.mesh_groups[mesh_group_index].finalize();
        spdlog::info("Loaded from disk in {:3}s\n", FffProcessor::getInstance()->time_keeper.restart());
        slice->compute();
#ifndef DEBUG
    }
    catch (...)
    {
        spdlog::error("Unknown exception.");
        exit(1);
    }
#endif
}
//END
//= cura::jsonValue2Str
bool jsonValue2Str(const rapidjson::Value& value, std::string& value_string)
{
    if (value.IsString())
    {
        value_string = value.GetString();
    }
    else if (value.IsTrue())
    {
        value_string = "true";
    }
    else if (value.IsFalse())
    {
        value_string = "false";
    }
    else if (value.IsNumber())
    {
        value_string = std::to_string(value.GetDouble());
    }
    else if (value.IsArray())
    {
        if (value.Empty())
        {
            value_string = "[]";
            return true;
        }
        std::string temp;
        jsonValue2Str(value[0], temp);
        value_string = std::string("[")
                     + std::accumulate(
                           std::next(value.Begin()),
                           value.End(),
                           temp,
                           [&temp](std::string converted, const rapidjson::Value& next)
                           {
                               jsonValue2Str(next, temp);
                               return std::move(converted) + "," + temp;
                           })
                     + std::string("]");
    }
    else
    {
        return false;
    }
    return true;
}
//END
//= cura::CommandLine::loadJSONSettings
void CommandLine::loadJSONSettings(const rapidjson::Value& element, Settings& settings, bool force_read_parent, bool force_read_nondefault)
{
    for (rapidjson::Value::ConstMemberIterator setting = element.MemberBegin(); setting != element.MemberEnd(); setting++)
    {
        const std::string name = setting->name.GetString();
        const rapidjson::Value& setting_object = setting->value;
        if (! setting_object.IsObject())
        {
            spdlog::error("JSON setting {} is not an object!", name);
            continue;
        }
        if (setting_object.HasMember("children"))
        {
            loadJSONSettings(setting_object["children"], settings, force_read_parent, force_read_nondefault);
            if (! force_read_parent)
            {
                continue;
            }
        }
        if (! setting_object.HasMember("default_value") && (! force_read_nondefault || ! setting_object.HasMember("value") || settings.has(name)))
        {
            if (! setting_object.HasMember("children"))
            {
                spdlog::warn("JSON setting '{}' has no [default_]value!", name);
                rapidjson::StringBuffer buffer;
                rapidjson::Writer<rapidjson::StringBuffer> writer(buffer);
                setting_object.Accept(writer);
                spdlog::debug("JSON setting '{}': '{}'", name, buffer.GetString());
            }
            continue;
        }
        const rapidjson::Value& json_value = setting_object.HasMember("default_value") ? setting_object["default_value"] : setting_object["value"];
        std::string value_string;
        if (! jsonValue2Str(json_value, value_string))
        {
            spdlog::warn("Unrecognized data type in JSON setting {}", name);
            continue;
        }
        settings.add(name, value_string);
    }
}
//END
//= cura::CommandLine::readResolvedJsonValues
std::optional<container_setting_map> CommandLine::readResolvedJsonValues(const rapidjson::Document& document)
{
    if (! document.IsObject())
    {
        return std::nullopt;
    }
    container_setting_map result;
    for (rapidjson::Value::ConstMemberIterator resolved_key = document.MemberBegin(); resolved_key != document.MemberEnd(); resolved_key++)
    {
        std::unordered_map<std::string, std::string> values;
        for (rapidjson::Value::ConstMemberIterator resolved_value = resolved_key->value.MemberBegin(); resolved_value != resolved_key->value.MemberEnd(); resolved_value++)
        {
            std::string value_string;
            if (! jsonValue2Str(resolved_value->value, value_string))
            {
                spdlog::warn("Unrecognized data type in JSON setting {}", resolved_value->name.GetString());
                continue;
            }
            values.emplace(resolved_value->name.GetString(), value_string);
        }
        result.emplace(resolved_key->name.GetString(), std::move(values));
    }
    return result;
}
//END
}
