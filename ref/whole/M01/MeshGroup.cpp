// What the functions of this unit compute.
#include "MeshGroup.h"
#include <filesystem>
#include <fstream>
#include <limits>
#include <png.h>
#include <rapidjson/document.h>
#include <rapidjson/error/en.h>
#include <rapidjson/memorystream.h>
#include <regex>
#include <stdio.h>
#include <string.h>
#include <fmt/format.h>
#include <range/v3/algorithm/transform.hpp>
#include <range/v3/view/enumerate.hpp>
#include <scripta/logger.h>
#include <spdlog/spdlog.h>
#include "settings/types/Ratio.h"
#include "utils/Matrix4x3D.h"
#include "utils/MeshUtils.h"
#include "utils/Point2F.h"
#include "utils/Point3F.h"
#include "utils/gettime.h"
#include "utils/section_type.h"
#include "utils/string.h"
namespace fs = std::filesystem;
namespace cura
{
//= cura::fgets_
void* fgets_(char* ptr, size_t len, FILE* f)
{
    while (len && fread(ptr, 1, 1, f) > 0)
    {
        if (*ptr == '\n' || *ptr == '\r')
        {
            *ptr = '\0';
            return ptr;
        }
        ptr++;
        len--;
    }
    return nullptr;
}
//END
//= cura::loadMeshSTL_ascii
bool loadMeshSTL_ascii(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix)
{
    FILE* f = fopen(filename.string().c_str(), "rt");
    char buffer[1024];
    Point3F vertex;
    int n = 0;
    Point3LL v0(0, 0, 0), v1(0, 0, 0), v2(0, 0, 0);
    while (fgets_(buffer, sizeof(buffer), f))
    {
        if (sscanf(buffer, " vertex %f %f %f", &vertex.x_, &vertex.y_, &vertex.z_) == 3)
        {
            n++;
            switch (n)
            {
            case 1:
                v0 = matrix.apply(vertex.toPoint3d());
                break;
            case 2:
                v1 = matrix.apply(vertex.toPoint3d());
                break;
            case 3:
                v2 = matrix.apply(vertex.toPoint3d());
                mesh->addFace(v0, v1, v2);
                n = 0;
                break;
            }
        }
    }
    fclose(f);
    mesh->finish();
    return true;
}
//END
//= cura::loadMeshSTL_binary
bool loadMeshSTL_binary(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix, const std::vector<Point2F>* uv_coordinates = nullptr)
{
    FILE* f = fopen(filename.string().c_str(), "rb");
    fseek(f, 0L, SEEK_END);
    long long file_size = ftell(f);
    rewind(f);
    size_t face_count = (file_size - 80 - sizeof(uint32_t)) / 50;
    char buffer[80];
    if (fread(buffer, 80, 1, f) != 1)
    {
        fclose(f);
        return false;
    }
    uint32_t reported_face_count;
    if (fread(&reported_face_count, sizeof(uint32_t), 1, f) != 1)
    {
        fclose(f);
        return false;
    }
    if (reported_face_count != face_count)
    {
        spdlog::warn("Face count reported by file ({}) is not equal to actual face count ({}). File could be corrupt!", reported_face_count, face_count);
    }
    mesh->faces_.reserve(face_count);
    mesh->vertices_.reserve(face_count);
    size_t vertex_index = 0;
    for (size_t i = 0; i < face_count; i++)
    {
        if (fread(buffer, 50, 1, f) != 1)
        {
            fclose(f);
            return false;
        }
        float* v = reinterpret_cast<float*>(buffer) + 3;
        Point3LL v0 = matrix.apply(Point3F(v[0], v[1], v[2]).toPoint3d());
        Point3LL v1 = matrix.apply(Point3F(v[3], v[4], v[5]).toPoint3d());
        Point3LL v2 = matrix.apply(Point3F(v[6], v[7], v[8]).toPoint3d());
        if (uv_coordinates && vertex_index + 2 < uv_coordinates->size())
        {
            std::optional<Point2F> uv0 = (*uv_coordinates)[vertex_index];
            std::optional<Point2F> uv1 = (*uv_coordinates)[vertex_index + 1];
            std::optional<Point2F> uv2 = (*uv_coordinates)[vertex_index + 2];
            vertex_index += 3;
            mesh->addFace(v0, v1, v2, uv0, uv1, uv2);
        }
        else
        {
            mesh->addFace(v0, v1, v2);
        }
    }
    fclose(f);
    mesh->finish();
    return true;
}
//END
//= cura::loadMeshSTL
bool loadMeshSTL(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix)
{
    FILE* f = fopen(filename.string().c_str(), "rb");
    if (f == nullptr)
    {
        return false;
    }
    mesh->mesh_name_ = filename.string();
    unsigned long long num_whitespace = 0;
    unsigned char whitespace;
    if (fread(&whitespace, 1, 1, f) != 1)
    {
        fclose(f);
        return false;
    }
    while (isspace(whitespace))
    {
        num_whitespace++;
        if (fread(&whitespace, 1, 1, f) != 1)
        {
            fclose(f);
            return false;
        }
    }
    fseek(f, num_whitespace, SEEK_SET);
    char buffer[6];
    if (fread(buffer, 5, 1, f) != 1)
    {
        fclose(f);
        return false;
    }
    fclose(f);
    buffer[5] = '\0';
    if (stringcasecompare(buffer, "solid") == 0)
    {
        bool load_success = loadMeshSTL_ascii(mesh, filename, matrix);
        if (! load_success)
            return false;
        if (mesh->faces_.size() < 1)
        {
            mesh->clear();
            return loadMeshSTL_binary(mesh, filename, matrix);
        }
        return true;
    }
    return loadMeshSTL_binary(mesh, filename, matrix);
}
//END
//= cura::loadMeshOBJ
bool loadMeshOBJ(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix)
{
    std::ifstream file(filename);
    if (! file.is_open())
    {
        spdlog::error("Could not open OBJ file: {}", filename.string());
        return false;
    }
    std::vector<Point3LL> vertices;
    std::vector<Point2F> uv_coordinates;
    std::string line;
    std::regex main_regex(R"((v|vt|f)\s+(.*))");
    const std::string floating_number_pattern = R"(([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?))";
    std::regex vertex_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"(\s+)" + floating_number_pattern);
    std::regex uv_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"((?:\s+)" + floating_number_pattern + ")");
    std::regex face_indices_regex(R"((\d+)(?:\/(\d*))?(?:\/(?:\d*))?)");
    auto get_uv_coordinates = [&uv_coordinates](std::optional<size_t> uv_index) -> std::optional<Point2F>
    {
        if (uv_index.has_value() && uv_index.value() < uv_coordinates.size())
        {
            return std::make_optional(uv_coordinates[uv_index.value()]);
        }
        return std::nullopt;
    };
    while (std::getline(file, line))
    {
        std::smatch matches;
        if (! std::regex_match(line, matches, main_regex))
        {
            continue;
        }
        const std::string line_identifier = matches[1].str();
        const std::string payload = matches[2].str();
        if (line_identifier == "v" && std::regex_match(payload, matches, vertex_regex))
        {
            const float x = std::stof(matches[1].str());
            const float y = std::stof(matches[2].str());
            const float z = std::stof(matches[3].str());
            vertices.push_back(matrix.apply(Point3D(x, y, z)));
        }
        else if (line_identifier == "vt" && std::regex_match(payload, matches, uv_regex))
        {
            const float u = std::stof(matches[1].str());
            const float v = std::stof(matches[2].str());
            uv_coordinates.push_back(Point2F(u, v));
        }
        else if (line_identifier == "f")
        {
            struct Vertex
            {
                size_t index;
                std::optional<size_t> uv_index;
            };
            std::vector<Vertex> vertex_indices;
            std::sregex_iterator it(payload.begin(), payload.end(), face_indices_regex);
            std::sregex_iterator end;
            while (it != end)
            {
                std::smatch vertex_match = *it;
                if (vertex_match.size() >= 2)
                {
                    Vertex vertex;
                    vertex.index = std::stoul(vertex_match[1].str()) - 1;
                    if (vertex_match[2].matched && vertex_match[2].length() > 0)
                    {
                        vertex.uv_index = std::stoul(vertex_match[2].str()) - 1;
                    }
                    vertex_indices.push_back(vertex);
                }
                ++it;
            }
            if (vertex_indices.size() >= 3)
            {
                for (size_t i = 1; i < vertex_indices.size() - 1; ++i)
                {
                    const Vertex& v0 = vertex_indices[0];
                    const Vertex& v1 = vertex_indices[i];
                    const Vertex& v2 = vertex_indices[i + 1];
                    if (v0.index < vertices.size() && v1.index < vertices.size() && v2.index < vertices.size())
                    {
                        mesh->addFace(
                            vertices[v0.index],
                            vertices[v1.index],
                            vertices[v2.index],
                            get_uv_coordinates(v0.uv_index),
                            get_uv_coordinates(v1.uv_index),
                            get_uv_coordinates(v2.uv_index));
                    }
                }
            }
        }
    }
    mesh->finish();
    return ! mesh->faces_.empty();
}
//END
//= cura::loadUVCoordinatesFromFile
bool loadUVCoordinatesFromFile(const fs::path& uv_filename, std::vector<Point2F>& uv_coordinates)
{
    if (! fs::exists(uv_filename))
    {
        return false;
    }
    std::ifstream file(uv_filename, std::ios::binary);
    if (! file.is_open())
    {
        spdlog::warn("Failed to open UV file: {}", uv_filename.string());
        return false;
    }
    uint32_t vertex_count;
    if (! file.read(reinterpret_cast<char*>(&vertex_count), sizeof(uint32_t)))
    {
        spdlog::warn("Failed to read vertex count from UV file: {}", uv_filename.string());
        return false;
    }
    uv_coordinates.resize(vertex_count);
    const std::streamsize uv_data_size = vertex_count * 2 * sizeof(float);
    if (! file.read(reinterpret_cast<char*>(uv_coordinates.data()), uv_data_size))
    {
        spdlog::warn("Failed to read UV coordinates from file: {}", uv_filename.string());
        return false;
    }
    spdlog::info("Loaded {} UV coordinates from: {}", vertex_count, uv_filename.string());
    return true;
}
//END
//= cura::loadMeshSTL_with_uv
bool loadMeshSTL_with_uv(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix, const std::vector<Point2F>& uv_coordinates)
{
    FILE* f = fopen(filename.string().c_str(), "rb");
    if (f == nullptr)
    {
        return false;
    }
    mesh->mesh_name_ = filename.string();
    unsigned long long num_whitespace = 0;
    unsigned char whitespace;
    if (fread(&whitespace, 1, 1, f) != 1)
    {
        fclose(f);
        return false;
    }
    while (isspace(whitespace))
    {
        num_whitespace++;
        if (fread(&whitespace, 1, 1, f) != 1)
        {
            fclose(f);
            return false;
        }
    }
    fseek(f, num_whitespace, SEEK_SET);
    char buffer[6];
    if (fread(buffer, 5, 1, f) != 1)
    {
        fclose(f);
        return false;
    }
    fclose(f);
    buffer[5] = '\0';
    if (stringcasecompare(buffer, "solid") == 0)
    {
        spdlog::warn("ASCII STL with UV coordinates not supported, use binary STL: {}", filename.string());
        return false;
    }
    return loadMeshSTL_binary(mesh, filename, matrix, &uv_coordinates);
}
//END
//= cura::loadMeshIntoMeshGroup
bool loadMeshIntoMeshGroup(MeshGroup* meshgroup, const fs::path& filename, const Matrix4x3D& transformation, Settings& object_parent_settings)
{
    TimeKeeper load_timer;
    Mesh mesh(object_parent_settings);
    bool load_success = false;
    bool has_uv = false;
    const std::string base_filename = filename.stem().string();
    std::string extension = filename.extension().string();
    extension = extension.substr(1, extension.size());
    ranges::transform(extension, extension.begin(), static_cast<int (*)(int)>(std::tolower));
    if (extension == "stl")
    {
        const fs::path uv_filename = fs::path(base_filename + ".uv");
        std::vector<Point2F> uv_coordinates;
        has_uv = loadUVCoordinatesFromFile(uv_filename, uv_coordinates);
        if (has_uv)
        {
            spdlog::info("Loading STL with UV coordinates from: {}", uv_filename.string());
            load_success = loadMeshSTL_with_uv(&mesh, filename, transformation, uv_coordinates);
        }
        else
        {
            load_success = loadMeshSTL(&mesh, filename, transformation);
        }
        if (! load_success)
        {
            spdlog::warn("loading STL '{}' failed", filename.string());
        }
    }
    else if (extension == "obj")
    {
        if (loadMeshOBJ(&mesh, filename, transformation))
        {
            load_success = true;
            has_uv = true;
        }
        else
        {
            spdlog::warn("loading OBJ '{}' failed", filename.string());
        }
    }
    else
    {
        spdlog::warn("Unable to recognize the extension of the file. Currently only STL and OBJ are supported.");
    }
    if (load_success)
    {
        if (has_uv)
        {
            const fs::path texture_filename = fs::path(filename).replace_extension("png");
            if (fs::exists(texture_filename))
            {
                if (MeshUtils::loadTextureFromFile(mesh, texture_filename))
                {
                    spdlog::info("Successfully loaded texture from: {}", texture_filename.string());
                }
                else
                {
                    spdlog::warn("Failed to load texture from: {}", texture_filename.string());
                }
            }
        }
        spdlog::info("loading '{}' took {:03.3f} seconds", filename.string(), load_timer.restart());
        mesh.mesh_name_ = base_filename;
        meshgroup->meshes.push_back(mesh);
    }
    return load_success;
}
//END
}
