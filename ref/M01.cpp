// Meshes.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "MeshGroup.h"
#include "SlicedUVCoordinates.h"
#include "TextureDataMapping.h"
#include "TextureDataProvider.h"
#include "mesh.h"
#include "settings/Settings.h"
#include "settings/types/Ratio.h"
#include "slicer.h"
#include "utils/AABB3D.h"
#include "utils/Matrix4x3D.h"
#include "utils/MeshUtils.h"
#include "utils/OBJ.h"
#include "utils/Point2F.h"
#include "utils/Point3D.h"
#include "utils/Point3F.h"
#include "utils/VoxelGrid.h"
#include "utils/gettime.h"
#include "utils/section_type.h"
#include "utils/string.h"
#include <algorithm>
#include <filesystem>
#include <fmt/format.h>
#include <fstream>
#include <limits>
#include <memory>
#include <numbers>
#include <optional>
#include <png.h>
#include <range/v3/algorithm/find.hpp>
#include <range/v3/algorithm/transform.hpp>
#include <range/v3/view/enumerate.hpp>
#include <rapidjson/document.h>
#include <rapidjson/error/en.h>
#include <rapidjson/memorystream.h>
#include <regex>
#include <scripta/logger.h>
#include <spdlog/spdlog.h>
#include <stdio.h>
#include <string.h>
#include <unordered_set>
#include "mesh.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::pointHash
namespace n1
{
const int vertex_meld_distance = MM2INT(0.03);
uint32_t r1(const Point3LL& p)
{
    return ((p.x_ + vertex_meld_distance / 2) / vertex_meld_distance) ^ (((p.y_ + vertex_meld_distance / 2) / vertex_meld_distance) << 10)
         ^ (((p.z_ + vertex_meld_distance / 2) / vertex_meld_distance) << 20);
}
} // namespace n1

//= cura::Mesh::Mesh
void r2(cura::Mesh& self, const Settings& parent)
{
        member(self.settings_) = parent;
}

//= cura::Mesh::Mesh
void r3(cura::Mesh& self, Settings&& parent)
{
        member(self.settings_) = std::move(parent);
}

//= cura::Mesh::addFace
void r4(cura::Mesh& self, const Point3LL& v0, const Point3LL& v1, const Point3LL& v2, const std::optional<Point2F>& uv0, const std::optional<Point2F>& uv1, const std::optional<Point2F>& uv2)
{
    int vi0 = self.findIndexOfVertex(v0);
    int vi1 = self.findIndexOfVertex(v1);
    int vi2 = self.findIndexOfVertex(v2);
    if (vi0 == vi1 || vi1 == vi2 || vi0 == vi2)
        return; 
    int idx = self.faces_.size(); 
    self.faces_.emplace_back();
    MeshFace& face = self.faces_[idx];
    face.vertex_index_[0] = vi0;
    face.vertex_index_[1] = vi1;
    face.vertex_index_[2] = vi2;
    face.uv_coordinates_[0] = uv0;
    face.uv_coordinates_[1] = uv1;
    face.uv_coordinates_[2] = uv2;
    self.vertices_[face.vertex_index_[0]].connected_faces_.push_back(idx);
    self.vertices_[face.vertex_index_[1]].connected_faces_.push_back(idx);
    self.vertices_[face.vertex_index_[2]].connected_faces_.push_back(idx);
}

//= cura::Mesh::clear
void r5(cura::Mesh& self)
{
    self.faces_.clear();
    self.vertices_.clear();
    self.vertex_hash_map_.clear();
}

//= cura::Mesh::finish
void r6(cura::Mesh& self)
{
    self.vertex_hash_map_.clear();
    for (unsigned int i = 0; i < self.faces_.size(); i++)
    {
        MeshFace& face = self.faces_[i];
        face.connected_face_index_[0] = self.getFaceIdxWithPoints(face.vertex_index_[0], face.vertex_index_[1], i, face.vertex_index_[2]);
        face.connected_face_index_[1] = self.getFaceIdxWithPoints(face.vertex_index_[1], face.vertex_index_[2], i, face.vertex_index_[0]);
        face.connected_face_index_[2] = self.getFaceIdxWithPoints(face.vertex_index_[2], face.vertex_index_[0], i, face.vertex_index_[1]);
    }
}

//= cura::Mesh::min
Point3LL r7(const cura::Mesh& self)
{
    return self.aabb_.min_;
}

//= cura::Mesh::max
Point3LL r8(const cura::Mesh& self)
{
    return self.aabb_.max_;
}

//= cura::Mesh::getAABB
AABB3D r9(const cura::Mesh& self)
{
    return self.aabb_;
}

//= cura::Mesh::expandXY
void r10(cura::Mesh& self, int64_t offset)
{
    if (offset)
    {
        self.aabb_.expandXY(offset);
    }
}

//= cura::Mesh::transform
void r11(cura::Mesh& self, const Matrix4x3D& transformation)
{
    for (MeshVertex& v : self.vertices_)
    {
        v.p_ = transformation.apply(v.p_);
    }
    self.aabb_.min_ = transformation.apply(self.aabb_.min_);
    self.aabb_.max_ = transformation.apply(self.aabb_.max_);
}

//= cura::Mesh::isPrinted
bool r12(const cura::Mesh& self)
{
    return ! self.settings_.get<bool>("cutting_mesh") && ! self.settings_.get<bool>("anti_overhang_mesh")
        && (! self.settings_.has("force_support_overhang_mesh") || ! self.settings_.get<bool>("force_support_overhang_mesh"));
}

//= cura::Mesh::isModelMesh
bool r13(const cura::Mesh& self)
{
    return self.isPrinted() && ! self.settings_.get<bool>("infill_mesh");
}

//= cura::Mesh::getFaceIdxWithPoints
int r15(const cura::Mesh& self, int idx0, int idx1, int notFaceIdx, int notFaceVertexIdx)
{
    std::vector<int> candidateFaces; 
    for (int f : self.vertices_[idx0].connected_faces_) 
    {
        if (f == notFaceIdx)
        {
            continue;
        }
        if (self.faces_[f].vertex_index_[0] == idx1 
            || self.faces_[f].vertex_index_[1] == idx1 
            || self.faces_[f].vertex_index_[2] == idx1 
        )
            candidateFaces.push_back(f);
    }
    if (candidateFaces.size() == 0)
    {
        if (! self.has_disconnected_faces)
        {
        }
        self.has_disconnected_faces = true;
        return -1;
    }
    if (candidateFaces.size() == 1)
    {
        return candidateFaces[0];
    }
    if (candidateFaces.size() % 2 == 0)
    {
        if (! self.has_disconnected_faces)
        {
        }
        self.has_disconnected_faces = true;
    }
    Point3D vn(self.vertices_[idx1].p_ - self.vertices_[idx0].p_);
    Point3D n = vn / vn.vSize(); 
    Point3D v0(self.vertices_[idx1].p_ - self.vertices_[idx0].p_);
    Point3D n0 = Point3D(self.vertices_[notFaceVertexIdx].p_ - self.vertices_[idx0].p_).cross(v0);
    if (n0.vSize() <= 0)
    {
    }
    double smallestAngle = 1000; 
    int bestIdx = -1;
    for (int candidateFace : candidateFaces)
    {
        int candidateVertex;
        { 
            for (candidateVertex = 0; candidateVertex < 3; candidateVertex++)
                if (self.faces_[candidateFace].vertex_index_[candidateVertex] != idx0 && self.faces_[candidateFace].vertex_index_[candidateVertex] != idx1)
                    break;
        }
        Point3D v1(self.vertices_[self.faces_[candidateFace].vertex_index_[candidateVertex]].p_ - self.vertices_[idx0].p_);
        Point3D n1 = v0.cross(v1);
        double dot = n0 * n1;
        double det = n * n0.cross(n1);
        double angle = std::atan2(det, dot);
        if (angle < 0)
            angle += 2 * std::numbers::pi; 
        if (angle == 0)
        {
            if (! self.has_overlapping_faces)
            {
            }
            self.has_overlapping_faces = true;
        }
        if (angle < smallestAngle)
        {
            smallestAngle = angle;
            bestIdx = candidateFace;
        }
    }
    if (bestIdx < 0)
    {
        if (! self.has_disconnected_faces)
        {
        }
        self.has_disconnected_faces = true;
    }
    return bestIdx;
}

//= cura::MeshVertex::MeshVertex
void r16(cura::MeshVertex& self, Point3LL p)
{
    member(self.p_) = p;
    self.connected_faces_.reserve(8);
} 

//= cura::Image::Image
void r17(cura::Image& self, const size_t width, const size_t height, const size_t bytes_per_pixel, std::vector<uint8_t>&& data)
{
    member(self.width_) = width;
    member(self.height_) = height;
    member(self.bytes_per_pixel_) = bytes_per_pixel;
    member(self.bytes_per_row_) = bytes_per_pixel * width;
    member(self.data_) = std::move(data);
}

//= cura::Image::getWidth
size_t r18(const cura::Image& self)
{
    return self.width_;
}

//= cura::Image::getHeight
size_t r19(const cura::Image& self)
{
    return self.height_;
}

//= cura::Image::getPixel
uint32_t r20(const cura::Image& self, const std::pair<size_t, size_t>& pixel_coordinates)
{
    return self.getPixel(pixel_coordinates.first, pixel_coordinates.second);
}

//= cura::Image::getPixel
uint32_t r21(const cura::Image& self, const size_t x, const size_t y)
{
    uint32_t result = 0;
    const size_t index = y * self.bytes_per_row_ + x * self.bytes_per_pixel_;
    for (size_t i = 0; i < self.bytes_per_pixel_; ++i)
    {
        result |= (self.data_[index + i] << ((self.bytes_per_pixel_ - i - 1) * 8));
    }
    return result;
}

//= cura::Image::getPixelCoordinates
std::pair<size_t, size_t> r22(const cura::Image& self, const Point2F& uv_coordinates)
{
    return { std::clamp(static_cast<size_t>(uv_coordinates.x_ * self.width_), static_cast<size_t>(0), self.width_ - 1),
             std::clamp(static_cast<size_t>(uv_coordinates.y_ * self.height_), static_cast<size_t>(0), self.height_ - 1) };
}

//= cura::Image::getPixel
uint32_t r23(const cura::Image& self, const Point2F& uv_coordinates)
{
    return self.getPixel(self.getPixelCoordinates(uv_coordinates));
}

//= cura::Mesh::translate
void r24(cura::Mesh& self, Point3LL offset)
{
    if (offset == Point3LL(0, 0, 0))
    {
        return;
    }
    for (MeshVertex& v : self.vertices_)
        v.p_ += offset;
    self.aabb_.translate(offset);
}

//= cura::MeshUtils::getBarycentricCoordinates
std::optional<Point3D> r25(const Point3LL& point, const Triangle3LL& triangle)
{
    const Point3LL v0(triangle[1] - triangle[0]);
    const Point3LL v1(triangle[2] - triangle[0]);
    const Point3LL v2(point - triangle[0]);
    const double d00 = static_cast<double>(v0.dot(v0));
    const double d01 = static_cast<double>(v0.dot(v1));
    const double d11 = static_cast<double>(v1.dot(v1));
    const double d20 = static_cast<double>(v2.dot(v0));
    const double d21 = static_cast<double>(v2.dot(v1));
    const double denom = d00 * d11 - d01 * d01;
    if (denom == 0)
    {
        return std::nullopt;
    }
    const double v = (d11 * d20 - d01 * d21) / denom;
    const double w = (d00 * d21 - d01 * d20) / denom;
    const double u = 1.0 - v - w;
    return Point3D(u, v, w);
}

//= cura::MeshUtils::getUVCoordinates
Point2F r26(const Point3D& barycentric_coordinates, const Triangle2F& uv_coordinates)
{
    return Point2F(
        (uv_coordinates[0].x_ * barycentric_coordinates.x_) + (uv_coordinates[1].x_ * barycentric_coordinates.y_) + (uv_coordinates[2].x_ * barycentric_coordinates.z_),
        (uv_coordinates[0].y_ * barycentric_coordinates.x_) + (uv_coordinates[1].y_ * barycentric_coordinates.y_) + (uv_coordinates[2].y_ * barycentric_coordinates.z_));
}

//= cura::MeshUtils::loadTextureFromPngData
bool r27(const std::vector<unsigned char>& texture_data, Mesh& mesh, const std::string& source_description, bool log_no_metadata)
{
    if (texture_data.empty())
    {
        return false;
    }
    png_image raw_texture = {};
    raw_texture.version = PNG_IMAGE_VERSION;
    if (! png_image_begin_read_from_memory(&raw_texture, texture_data.data(), texture_data.size()))
    {
        if (log_no_metadata)
        {
        }
        else
        {
        }
        return false;
    }
    std::vector<uint8_t> buffer(PNG_IMAGE_SIZE(raw_texture));
    if (! png_image_finish_read(&raw_texture, nullptr, buffer.data(), 0, nullptr) || buffer.empty())
    {
        if (log_no_metadata)
        {
        }
        else
        {
        }
        return false;
    }
    std::unique_ptr<png_struct, void (*)(png_structp)> png_ptr(
        png_create_read_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr),
        [](png_structp png_ptr_destroy)
        {
            png_destroy_read_struct(&png_ptr_destroy, nullptr, nullptr);
        });
    if (! png_ptr)
    {
        return false;
    }
    std::unique_ptr<png_info, void (*)(png_infop)> info_ptr(
        png_create_info_struct(png_ptr.get()),
        [](png_infop info_ptr_destroy)
        {
            png_destroy_read_struct(nullptr, &info_ptr_destroy, nullptr);
        });
    if (! info_ptr)
    {
        return false;
    }
    if (setjmp(png_jmpbuf(png_ptr.get())) != 0)
    {
        return false;
    }
    struct PngReadContext
    {
        const unsigned char* data;
        size_t size;
        size_t offset;
    } read_context{ texture_data.data(), texture_data.size(), 0 };
    png_set_read_fn(
        png_ptr.get(),
        &read_context,
        [](const png_structp read_png_ptr, const png_bytep out_bytes, const png_size_t byte_count_to_read)
        {
            auto* context = static_cast<PngReadContext*>(png_get_io_ptr(read_png_ptr));
            if (context->offset + byte_count_to_read > context->size)
            {
                png_error(read_png_ptr, "Read beyond end of buffer");
            }
            memcpy(out_bytes, context->data + context->offset, byte_count_to_read);
            context->offset += byte_count_to_read;
        });
    png_read_info(png_ptr.get(), info_ptr.get());
    png_textp text_ptr;
    int num_text;
    if (png_get_text(png_ptr.get(), info_ptr.get(), &text_ptr, &num_text) <= 0)
    {
        if (log_no_metadata)
        {
        }
        return false;
    }
    auto texture_data_mapping = std::make_shared<TextureDataMapping>();
    for (int i = 0; i < num_text; ++i)
    {
        if (std::string(text_ptr[i].key) == "Description")
        {
            rapidjson::MemoryStream json_memory_stream(text_ptr[i].text, text_ptr[i].text_length);
            rapidjson::Document json_document;
            json_document.ParseStream(json_memory_stream);
            if (json_document.HasParseError())
            {
                if (log_no_metadata)
                {
                }
                else
                {
                }
                return false;
            }
            for (auto it = json_document.MemberBegin(); it != json_document.MemberEnd(); ++it)
            {
                std::string feature_name = it->name.GetString();
                const rapidjson::Value& array = it->value;
                if (array.IsArray() && array.Size() == 2)
                {
                    (*texture_data_mapping)[feature_name] = TextureBitField{ array[0].GetUint(), array[1].GetUint() };
                }
            }
            break;
        }
    }
    if (! texture_data_mapping->empty())
    {
        mesh.texture_ = std::make_shared<Image>(
            raw_texture.width,
            raw_texture.height,
            PNG_IMAGE_SAMPLE_COMPONENT_SIZE(raw_texture.format) * PNG_IMAGE_SAMPLE_CHANNELS(raw_texture.format),
            std::move(buffer));
        mesh.texture_data_mapping_ = texture_data_mapping;
        if (log_no_metadata)
        {
        }
        return true;
    }
    return false;
}

//= cura::OBJ::OBJ
void r30(cura::OBJ& self, const std::string& filename, const double scale)
{
        member(self.filename_) = filename;
        member(self.scale_) = scale;
}

//= cura::OBJ::writeSphere
void r31(cura::OBJ& self, const Point3D& position, const double radius, const SVG::Color color, const size_t latitude_segments, const size_t longitude_segments)
{
    std::vector<std::vector<Point3D>> vertices(latitude_segments + 1);
    for (size_t i = 0; i <= latitude_segments; ++i)
    {
        const double theta = std::numbers::pi * i / latitude_segments;
        const double sin_theta = std::sin(theta);
        const double cos_theta = std::cos(theta);
        vertices[i].resize(longitude_segments + 1);
        for (size_t j = 0; j <= longitude_segments; ++j)
        {
            const double phi = 2.0 * std::numbers::pi * j / longitude_segments;
            const double sin_phi = std::sin(phi);
            const double cos_phi = std::cos(phi);
            const double x = radius * sin_theta * cos_phi;
            const double y = radius * sin_theta * sin_phi;
            const double z = radius * cos_theta;
            vertices[i][j] = Point3D(x, y, z) + position;
        }
    }
    for (size_t i = 0; i < latitude_segments; ++i)
    {
        for (size_t j = 0; j < longitude_segments; ++j)
        {
            const Point3D& v00 = vertices[i][j];
            const Point3D& v01 = vertices[i][j + 1];
            const Point3D& v10 = vertices[i + 1][j];
            const Point3D& v11 = vertices[i + 1][j + 1];
            if (i != 0)
            {
                self.writeTriangle(v00, v11, v01, color);
            }
            if (i != latitude_segments - 1)
            {
                self.writeTriangle(v00, v10, v11, color);
            }
        }
    }
}

//= cura::OBJ::writeTriangle
namespace n32
{
using Triangle = cura::OBJ::Triangle;
void r32(cura::OBJ& self, const Point3D& p0, const Point3D& p1, const Point3D& p2, const SVG::Color color, const std::optional<Point2F>& uv0, const std::optional<Point2F>& uv1, const std::optional<Point2F>& uv2)
{
    self.triangles_.push_back(Triangle{ self.scalePosition(p0), self.scalePosition(p1), self.scalePosition(p2), color, uv0, uv1, uv2 });
}
} // namespace n32

//= cura::OBJ::write
void r33(cura::OBJ& self, const Mesh& mesh, const SVG::Color color)
{
    constexpr double scale = 1.0;
    for (const MeshFace& face : mesh.faces_)
    {
        self.writeTriangle(
            Point3D(mesh.vertices_[face.vertex_index_[0]].p_, scale),
            Point3D(mesh.vertices_[face.vertex_index_[1]].p_, scale),
            Point3D(mesh.vertices_[face.vertex_index_[2]].p_, scale),
            color,
            face.uv_coordinates_[0],
            face.uv_coordinates_[1],
            face.uv_coordinates_[2]);
    }
}

//= cura::OBJ::write
void r34(cura::OBJ& self, const VoxelGrid& voxel_grid)
{
    const double radius = std::min({ voxel_grid.getResolution().x_, voxel_grid.getResolution().y_, voxel_grid.getResolution().z_ }) / 4.0;
    std::mutex mutex;
    voxel_grid.visitOccupiedVoxels(
        [&self, &mutex, &voxel_grid, &radius](const auto& voxel)
        {
            std::lock_guard lock(mutex);
            self.writeSphere(voxel_grid.toGlobalCoordinates(voxel.first), radius, static_cast<SVG::Color>(voxel.second), 2, 4);
        });
}

//= cura::OBJ::write
void r35(cura::OBJ& self, const Polyline& polyline, const coord_t z, const coord_t height, const SVG::Color color)
{
    constexpr double scale = 1.0;
    const Point3D extrusion(0.0, 0.0, height);
    for (auto iterator = polyline.beginSegments(); iterator != polyline.endSegments(); ++iterator)
    {
        const Point3D start(Point3LL((*iterator).start, z), scale);
        const Point3D end(Point3LL((*iterator).end, z), scale);
        self.writeTriangle(start, end, end + extrusion, color);
        self.writeTriangle(start, end + extrusion, start + extrusion, color);
    }
}

//= cura::OBJ::write
void r36(cura::OBJ& self, const Shape& shape, const coord_t z, const coord_t height, const SVG::Color color)
{
    for (const Polygon& polygon : shape)
    {
        self.write(polygon, z, height, color);
    }
}

//= cura::OBJ::scalePosition
Point3D r37(const cura::OBJ& self, const Point3D& p)
{
    return p * self.scale_;
}

//= cura::OBJ::materialName
std::string r38(const cura::OBJ& self, const SVG::Color color)
{
    return fmt::format("material_{}", SVG::toString(color));
}

//= cura::SlicedUVCoordinates::SlicedUVCoordinates
namespace n39
{
using Segment = cura::SlicedUVCoordinates::Segment;
void r39(cura::SlicedUVCoordinates& self, const std::vector<SlicerSegment>& segments)
{
        member(self.located_uv_coordinates_) = self.cell_size;
    self.segments_.reserve(segments.size());
    for (const SlicerSegment& segment : segments)
    {
        if (segment.uv_start.has_value() && segment.uv_end.has_value())
        {
            self.located_uv_coordinates_.insert(segment.start, segment.uv_start.value());
            self.located_uv_coordinates_.insert(segment.end, segment.uv_end.value());
            self.segments_.push_back(Segment{ segment.start, segment.end, segment.uv_start.value(), segment.uv_end.value() });
        }
    }
}
} // namespace n39

//= cura::SlicedUVCoordinates::getClosestUVCoordinates
namespace n40
{
using Segment = cura::SlicedUVCoordinates::Segment;
std::optional<Point2F> r40(const cura::SlicedUVCoordinates& self, const Point2LL& position)
{
    SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<Point2F> nearest_uv_coordinates;
    if (self.located_uv_coordinates_.getNearest(position, self.search_radius, nearest_uv_coordinates))
    {
        return nearest_uv_coordinates.val;
    }
    double closest_distance = std::numeric_limits<double>::max();
    std::optional<Point2F> closest_uv_coordinates;
    for (const Segment& segment : self.segments_)
    {
        const double segment_length = vSizef(segment.end - segment.start);
        if (std::abs(segment_length) < 0.001)
        {
            continue;
        }
        const double dot_product = dot((position - segment.start), (segment.end - segment.start)) / segment_length;
        double distance_to_segment;
        double interpolate_factor;
        if (dot_product > segment_length)
        {
            interpolate_factor = 1.0;
            distance_to_segment = vSizef(position - segment.end);
        }
        else if (dot_product < 0.0)
        {
            interpolate_factor = 0.0;
            distance_to_segment = vSizef(position - segment.start);
        }
        else
        {
            interpolate_factor = dot_product / segment_length;
            const Point2LL projected_position = cura::lerp(segment.start, segment.end, interpolate_factor);
            distance_to_segment = vSizef(position - projected_position);
        }
        if (distance_to_segment < closest_distance)
        {
            closest_distance = distance_to_segment;
            closest_uv_coordinates = cura::lerp(segment.uv_start, segment.uv_end, static_cast<float>(interpolate_factor));
        }
    }
    return closest_uv_coordinates;
}
} // namespace n40

//= cura::TextureDataProvider::TextureDataProvider
void r41(cura::TextureDataProvider& self, const std::shared_ptr<SlicedUVCoordinates>& uv_coordinates, const std::shared_ptr<Image>& texture, const std::shared_ptr<TextureDataMapping>& texture_data_mapping)
{
        member(self.uv_coordinates_) = uv_coordinates;
        member(self.texture_) = texture;
        member(self.texture_data_mapping_) = texture_data_mapping;
}

//= cura::TextureDataProvider::getValue
std::optional<uint32_t> r42(const cura::TextureDataProvider& self, const size_t pixel_x, const size_t pixel_y, const std::string& feature)
{
    auto data_mapping_iterator = self.texture_data_mapping_->find(feature);
    if (data_mapping_iterator == self.texture_data_mapping_->end())
    {
        return std::nullopt;
    }
    const TextureBitField& bit_field = data_mapping_iterator->second;
    const uint32_t pixel_data = self.texture_->getPixel(pixel_x, pixel_y);
    return (pixel_data << (32 - 1 - bit_field.bit_range_end_index)) >> (32 - 1 - (bit_field.bit_range_end_index - bit_field.bit_range_start_index));
}

//= cura::TextureDataProvider::getValue
std::optional<uint32_t> r43(const cura::TextureDataProvider& self, const Point2F& uv_coordinates, const std::string& feature)
{
    std::pair<size_t, size_t> pixel_coordinates = self.texture_->getPixelCoordinates(uv_coordinates);
    return self.getValue(pixel_coordinates.first, pixel_coordinates.second, feature);
}

//= cura::TextureDataProvider::getValue
std::optional<uint32_t> r44(const cura::TextureDataProvider& self, const Point2LL& position, const std::string& feature)
{
    const std::optional<Point2F> point_uv_coordinates = self.uv_coordinates_->getClosestUVCoordinates(position);
    if (! point_uv_coordinates.has_value())
    {
        return std::nullopt;
    }
    return self.getValue(point_uv_coordinates.value(), feature);
}

//= cura::TextureDataProvider::getAreaPreference
std::optional<TextureArea> r45(const cura::TextureDataProvider& self, const Point2LL& position, const std::string& feature)
{
    const std::optional<uint32_t> raw_value = self.getValue(position, feature);
    if (raw_value.has_value())
    {
        return static_cast<TextureArea>(raw_value.value());
    }
    return std::nullopt;
}

//= cura::MeshGroup::min
Point3LL r47(const cura::MeshGroup& self)
{
    if (self.meshes.size() < 1)
    {
        return Point3LL(0, 0, 0);
    }
    Point3LL ret(std::numeric_limits<coord_t>::max(), std::numeric_limits<coord_t>::max(), std::numeric_limits<coord_t>::max());
    for (const Mesh& mesh : self.meshes)
    {
        if (! mesh.isModelMesh()) 
        {
            continue;
        }
        Point3LL v = mesh.min();
        ret.x_ = std::min(ret.x_, v.x_);
        ret.y_ = std::min(ret.y_, v.y_);
        ret.z_ = std::min(ret.z_, v.z_);
    }
    return ret;
}

//= cura::MeshGroup::max
Point3LL r48(const cura::MeshGroup& self)
{
    if (self.meshes.size() < 1)
    {
        return Point3LL(0, 0, 0);
    }
    Point3LL ret(std::numeric_limits<int32_t>::min(), std::numeric_limits<int32_t>::min(), std::numeric_limits<int32_t>::min());
    for (const Mesh& mesh : self.meshes)
    {
        if (! mesh.isModelMesh()) 
        {
            continue;
        }
        Point3LL v = mesh.max();
        ret.x_ = std::max(ret.x_, v.x_);
        ret.y_ = std::max(ret.y_, v.y_);
        ret.z_ = std::max(ret.z_, v.z_);
    }
    return ret;
}

//= cura::MeshGroup::clear
void r49(cura::MeshGroup& self)
{
    for (Mesh& m : self.meshes)
    {
        m.clear();
    }
}

//= cura::MeshGroup::finalize
void r50(cura::MeshGroup& self)
{
    Point3LL meshgroup_offset(0, 0, 0);
    if (! self.settings.get<bool>("machine_center_is_zero"))
    {
        meshgroup_offset.x_ = self.settings.get<coord_t>("machine_width") / 2;
        meshgroup_offset.y_ = self.settings.get<coord_t>("machine_depth") / 2;
    }
    for (Mesh& mesh : self.meshes)
    {
        Point3LL mesh_offset(mesh.settings_.get<coord_t>("mesh_position_x"), mesh.settings_.get<coord_t>("mesh_position_y"), mesh.settings_.get<coord_t>("mesh_position_z"));
        if (mesh.settings_.get<bool>("center_object"))
        {
            Point3LL object_min = mesh.min();
            Point3LL object_max = mesh.max();
            Point3LL object_size = object_max - object_min;
            mesh_offset += Point3LL(-object_min.x_ - object_size.x_ / 2, -object_min.y_ - object_size.y_ / 2, -object_min.z_);
        }
        mesh.translate(mesh_offset + meshgroup_offset);
    }
    self.scaleFromBottom(
        self.settings.get<Ratio>("material_shrinkage_percentage_xy"),
        self.settings.get<Ratio>("material_shrinkage_percentage_z")); 
    for (const auto& [idx, mesh] : self.meshes | ranges::views::enumerate)
    {
        scripta::log(fmt::format("mesh_{}", idx), mesh, SectionType::NA);
    }
}

//= cura::MeshGroup::scaleFromBottom
void r51(cura::MeshGroup& self, const Ratio factor_xy, const Ratio factor_z)
{
    const Point3LL center = (self.max() + self.min()) / 2;
    const Point3LL origin(center.x_, center.y_, 0);
    const Matrix4x3D transformation = Matrix4x3D::scale(factor_xy, factor_xy, factor_z, origin);
    for (Mesh& mesh : self.meshes)
    {
        mesh.transform(transformation);
    }
}

//END
}  // namespace ref
