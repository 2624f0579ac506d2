// Gradual flow.
#include <algorithm>
#include <array>
#include <unordered_set>
#include <unordered_map>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <deque>
#include <memory>
#include <numeric>
#include <optional>
#include <functional>
#include <string>
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "geometry/Polygon.h"
#include "geometry/OpenPolyline.h"
#include "geometry/SingleShape.h"
#include "geometry/MixedLinesSet.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "raft.h"
#include "Application.h"
#include "LayerPlan.h"
#include "Scene.h"
#include "geometry/Point2LL.h"
#include "geometry/PointsSet.h"
#include "gradual_flow/FlowLimitedPath.h"
#include "gradual_flow/Utils.h"
#include "pathPlanning/GCodePath.h"
#include "settings/Settings.h"
#include "settings/types/Angle.h"
#include "utils/AABB.h"
#include "utils/Coord_t.h"
#include "utils/types/arachne.h"
#include "utils/types/char_range_literal.h"
#include "utils/types/generic.h"
#include "utils/types/geometry.h"
#include "utils/types/get.h"
#include "utils/types/graph.h"
#include "utils/views/convert.h"
#include <algorithm>
#include <concepts>
#include <cstdlib>
#include <filesystem>
#include <fmt/core.h>
#include <fmt/format.h>
#include <functional>
#include <limits>
#include <optional>
#include <range/v3/action/remove_if.hpp>
#include <range/v3/algorithm/contains.hpp>
#include <range/v3/all.hpp>
#include <range/v3/functional/bind_back.hpp>
#include <range/v3/iterator/concepts.hpp>
#include <range/v3/iterator/operations.hpp>
#include <range/v3/range/concepts.hpp>
#include <range/v3/range/conversion.hpp>
#include <range/v3/range/operations.hpp>
#include <range/v3/range_fwd.hpp>
#include <range/v3/view/addressof.hpp>
#include <range/v3/view/concat.hpp>
#include <range/v3/view/single.hpp>
#include <range/v3/view/split.hpp>
#include <range/v3/view/subrange.hpp>
#include <range/v3/view/take.hpp>
#include <range/v3/view/transform.hpp>
#include <range/v3/view/view.hpp>
#include <spdlog/spdlog.h>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <vector>
#include "gradual_flow/FlowLimitedPath.h"
#include "gradual_flow/Processor.h"
#include "gradual_flow/Utils.h"
#include "utils/actions/smooth.h"
#include "utils/views/bounding_box.h"
#include "utils/views/convert.h"
#include "utils/views/dfs.h"
#include "utils/views/get.h"
#include "utils/views/split_paths.h"
#include "utils/types/arachne.h"
#include "utils/types/char_range_literal.h"
#include "utils/types/generic.h"
#include "utils/types/geometry.h"
#include "utils/types/get.h"
#include "utils/types/graph.h"
#include "utils/types/numeric_facade.h"
#include "utils/types/string_switch.h"
#include "utils/format/filesystem_path.h"
#include "utils/format/thread_id.h"
#include "ref.h"

namespace ref
{
using namespace cura;

//= cura::gradual_flow::FlowLimitedPath::targetSpeed
double r1(const cura::gradual_flow::FlowLimitedPath& self)
{
    return self.original_gcode_path_data->config.speed_derivatives.speed * self.original_gcode_path_data->speed_factor * 1e3;
}

//= cura::gradual_flow::FlowLimitedPath::isTravel
bool r2(const cura::gradual_flow::FlowLimitedPath& self)
{
    return self.targetFlow() <= 0;
}

//= cura::gradual_flow::FlowLimitedPath::isRetract
bool r3(const cura::gradual_flow::FlowLimitedPath& self)
{
    return self.original_gcode_path_data->retract;
}

//= cura::gradual_flow::FlowLimitedPath::extrusionVolumePerMm
double r4(const cura::gradual_flow::FlowLimitedPath& self)
{
    return self.original_gcode_path_data->flow * self.original_gcode_path_data->config.line_width * self.original_gcode_path_data->config.layer_thickness
         * self.original_gcode_path_data->config.getFlowRatio();
}

//= cura::gradual_flow::FlowLimitedPath::flow
double r5(const cura::gradual_flow::FlowLimitedPath& self)
{
    return self.flow_;
}

//= cura::gradual_flow::FlowLimitedPath::targetFlow
double r6(const cura::gradual_flow::FlowLimitedPath& self)
{
    return self.extrusionVolumePerMm() * self.targetSpeed();
}

//= cura::gradual_flow::FlowLimitedPath::toSvgPathData
std::string r7(const cura::gradual_flow::FlowLimitedPath& self)
{
    std::string path_data;
    auto is_first_point = true;
    for (auto point : self.points)
    {
        const auto identifier = is_first_point ? "M" : "L";
        path_data += fmt::format("{}{} {} ", identifier, point.x_ * 1e-3, point.y_ * 1e-3);
        is_first_point = false;
    }
    return path_data;
}

//= cura::gradual_flow::FlowLimitedPath::toSvgPath
std::string r8(cura::gradual_flow::FlowLimitedPath& self)
{
    const auto path_data = self.toSvgPathData();
    if (self.isTravel())
    {
        return fmt::format("<path d=\"{}\" fill=\"none\" stroke=\"black\" stroke-width=\"0.05\" />", path_data);
    }
    const auto [r, g, b] = gradual_flow::utils::hsvToRgb(self.flow() * .00000003, 100., 100.);
    const auto color = fmt::format("rgb({},{},{})", r, g, b);
    return fmt::format("<path d=\"{}\" fill=\"none\" stroke=\"{}\" stroke-width=\"0.1\" />", path_data, color);
}

//= cura::gradual_flow::FlowLimitedPath::totalLength
double r9(const cura::gradual_flow::FlowLimitedPath& self)
{
    double path_length = 0;
    if (! self.points.empty())
    {
        auto last_point = self.points.front();
        for (const auto& point : self.points | ranges::views::drop(1))
        {
            path_length += std::hypot(point.x_ - last_point.x_, point.y_ - last_point.y_);
            last_point = point;
        }
    }
    return path_length;
}

//= cura::gradual_flow::FlowLimitedPath::totalDuration
double r10(const cura::gradual_flow::FlowLimitedPath& self)
{
    return self.total_length / self.speed;
}

//= cura::gradual_flow::FlowLimitedPath::toClassicPath
GCodePath r12(const cura::gradual_flow::FlowLimitedPath& self, const bool include_first_point)
{
    GCodePath output_path = *self.original_gcode_path_data;
    output_path.points.clear();
    for (auto& point : self.points | ranges::views::drop(include_first_point ? 0 : 1))
    {
        output_path.points.push_back(point);
    }
    output_path.config.speed_derivatives.speed = (self.speed / 1e3) / output_path.speed_factor;
    return output_path;
}

//= cura::gradual_flow::utils::hsvToRgb
std::tuple<int, int, int> r16(double H, double S, double V)
{
    if (H > 360. || H < 0. || S > 100. || S < 0. || V > 100. || V < 0.)
    {
        throw std::invalid_argument("The given HSV values are not in valid range");
    }
    auto s = S * .01;
    auto v = V * .01;
    auto C = s * v;
    auto X = C * (1. - abs(fmod(H / 60.0, 2.) - 1.));
    auto m = v - C;
    auto r = 0., g = 0., b = 0.;
    if (H >= 0. && H < 60.)
    {
        r = C;
        g = X;
        b = 0.;
    }
    else if (H >= 60. && H < 120.)
    {
        r = X;
        g = C;
        b = 0.;
    }
    else if (H >= 120. && H < 180.)
    {
        r = 0.;
        g = C;
        b = X;
    }
    else if (H >= 180. && H < 240.)
    {
        r = 0.;
        g = X;
        b = C;
    }
    else if (H >= 240. && H < 300.)
    {
        r = X;
        g = 0.;
        b = C;
    }
    else
    {
        r = C;
        g = 0.;
        b = X;
    }
    int R = (r + m) * 255.;
    int G = (g + m) * 255.;
    int B = (b + m) * 255.;
    return std::make_tuple(R, G, B);
}

//= cura::actions::smooth_fn::magnitude | ta=ClipperLib::IntPoint
namespace n25
{
using Vector = ClipperLib::IntPoint;
utils::floating_point auto r25(const cura::actions::smooth_fn& self, Vector& v)
{
    return std::hypot(std::get<"X">(v), std::get<"Y">(v));
}
} // namespace n25

//= cura::actions::smooth_fn::dotProduct | ta=ClipperLib::IntPoint
namespace n26
{
using Vector = ClipperLib::IntPoint;
auto r26(const cura::actions::smooth_fn& self, Vector& point_0, Vector& point_1)
{
    return std::get<"X">(point_0) * std::get<"X">(point_1) + std::get<"Y">(point_0) * std::get<"Y">(point_1);
}
} // namespace n26

//= cura::utils::NumericFacade::operator== | cura::utils::NumericFacade<double>
namespace n37
{
using NumericFacade = cura::utils::NumericFacade<double>;
bool r37(const cura::utils::NumericFacade<double>& self, const NumericFacade& other)
{
    return self.value == other.value;
}
} // namespace n37

//= cura::utils::NumericFacade::operator*= | cura::utils::NumericFacade<double>
namespace n40
{
using NumericFacade = cura::utils::NumericFacade<double>;
NumericFacade& r40(cura::utils::NumericFacade<double>& self, const NumericFacade& other)
{
    self.value *= other.value;
    return self;
}
} // namespace n40

//= cura::utils::NumericFacade::operator+ | cura::utils::NumericFacade<double>
namespace n41
{
using NumericFacade = cura::utils::NumericFacade<double>;
NumericFacade r41(const cura::utils::NumericFacade<double>& self, const NumericFacade& other)
{
    return { self.value + other.value };
}
} // namespace n41

//= cura::utils::NumericFacade::operator+ | cura::utils::NumericFacade<double>
namespace n42
{
using NumericFacade = cura::utils::NumericFacade<double>;
NumericFacade r42(const cura::utils::NumericFacade<double>& self, NumericFacade&& other)
{
    return { self.value + other.value };
}
} // namespace n42

//= cura::utils::NumericFacade::operator- | cura::utils::NumericFacade<double>
namespace n44
{
using NumericFacade = cura::utils::NumericFacade<double>;
NumericFacade r44(const cura::utils::NumericFacade<double>& self, const NumericFacade& other)
{
    return { self.value - other.value };
}
} // namespace n44

//= cura::utils::NumericFacade::operator* | cura::utils::NumericFacade<double>
namespace n46
{
using NumericFacade = cura::utils::NumericFacade<double>;
NumericFacade r46(const cura::utils::NumericFacade<double>& self, const NumericFacade& other)
{
    return { self.value * other.value };
}
} // namespace n46

//= cura::utils::NumericFacade::operator/ | cura::utils::NumericFacade<double>
namespace n48
{
using NumericFacade = cura::utils::NumericFacade<double>;
NumericFacade r48(const cura::utils::NumericFacade<double>& self, const NumericFacade& other)
{
    return { self.value / other.value };
}
} // namespace n48

//= cura::utils::NumericFacade::operator- | cura::utils::NumericFacade<double>
namespace n50
{
using NumericFacade = cura::utils::NumericFacade<double>;
NumericFacade r50(const cura::utils::NumericFacade<double>& self)
{
    return { -self.value };
}
} // namespace n50

//= cura::utils::hash_djb2a
uint64_t r51(const std::string_view value)
{
    uint64_t hash{ 5381 };
    for (unsigned char c : value)
    {
        hash = ((hash << 5) + hash) ^ c;
    }
    return hash;
}

//END
}  // namespace ref
