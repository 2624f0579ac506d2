// What reading a setting must yield (S01: which value applies, S02: unit conversion, S03: option texts).
#include <numbers>
#include <regex>
#include <string>
#include <unordered_map>
#include <vector>
#include "Application.h"
#include "BoostInterface.hpp"
#include "ExtruderTrain.h"
#include "Slice.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "settings/EnumSettings.h"
#include "settings/FlowTempGraph.h"
#include "settings/Settings.h"
#include "settings/types/Angle.h"
#include "settings/types/Duration.h"
#include "settings/types/LayerIndex.h"
#include "settings/types/Ratio.h"
#include "settings/types/Temperature.h"
#include "settings/types/Velocity.h"
#include "utils/Matrix4x3D.h"
#include "utils/types/string_switch.h"

namespace ref
{
using namespace cura;
using S = Settings;
using K = const std::string&;

//= cura::Settings::get | ta=double
double r_double(const S& self, K key)
{
    return std::atof(self.get<std::string>(key).c_str());
}

//= cura::Settings::get | ta=unsigned long
size_t r_size_t(const S& self, K key)
{
    return std::stoul(self.get<std::string>(key));
}

//= cura::Settings::get | ta=int
int r_int(const S& self, K key)
{
    return std::atoi(self.get<std::string>(key).c_str());
}

//= cura::Settings::get | ta=bool
bool r_bool(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    for (const char* yes : { "true", "True", "yes", "on" })
    {
        if (text == yes)
            return true;
    }
    return std::atoi(text.c_str()) != 0;
}

//= cura::Settings::get | ta=cura::ExtruderTrain &
ExtruderTrain& r_ExtruderTrain_(const S& self, K key)
{
    const int n = self.get<int>(key);
    auto& extruders = Application::getInstance().current_slice_->scene.extruders;
    return n >= 0 ? extruders[n] : extruders[static_cast<int>(self.get<size_t>("extruder_nr"))]; // negative: the object's own extruder
}

//= cura::Settings::get | ta=std::vector<cura::ExtruderTrain *, std::allocator<cura::ExtruderTrain *>>
std::vector<ExtruderTrain*> r_std__vector_ExtruderTrain__(const S& self, K key)
{
    const int n = self.get<int>(key);
    auto& extruders = Application::getInstance().current_slice_->scene.extruders;
    std::vector<ExtruderTrain*> out;
    if (n >= 0)
    {
        out.push_back(&extruders[n]);
        return out;
    }
    for (auto& e : extruders) // negative: every extruder
        out.push_back(&e);
    return out;
}

//= cura::Settings::get | ta=cura::LayerIndex
LayerIndex r_LayerIndex(const S& self, K key)
{
    return LayerIndex(self.get<int>(key) - 1); // users count layers from 1
}

//= cura::Settings::get | ta=long long
coord_t r_coord_t(const S& self, K key)
{
    return std::llround(self.get<double>(key) * 1000.0); // millimetres to micrometres
}

//= cura::Settings::get | ta=cura::AngleRadians
AngleRadians r_AngleRadians(const S& self, K key)
{
    return AngleRadians(self.get<double>(key) * (std::numbers::pi / 180));
}

//= cura::Settings::get | ta=cura::AngleDegrees
AngleDegrees r_AngleDegrees(const S& self, K key)
{
    return AngleDegrees(self.get<double>(key));
}

//= cura::Settings::get | ta=cura::Temperature
Temperature r_Temperature(const S& self, K key)
{
    return Temperature(self.get<double>(key));
}

//= cura::Settings::get | ta=cura::Velocity
Velocity r_Velocity(const S& self, K key)
{
    return Velocity(self.get<double>(key));
}

//= cura::Settings::get | ta=cura::Acceleration
Acceleration r_Acceleration(const S& self, K key)
{
    return Acceleration(self.get<double>(key));
}

//= cura::Settings::get | ta=cura::Duration
Duration r_Duration(const S& self, K key)
{
    return Duration(self.get<double>(key));
}

//= cura::Settings::get | ta=cura::Ratio
Ratio r_Ratio(const S& self, K key)
{
    return Ratio(self.get<double>(key) / 100); // percentages
}

//= cura::Settings::get | ta=std::vector<cura::Ratio, std::allocator<cura::Ratio>>
std::vector<Ratio> r_std__vector_Ratio_(const S& self, K key)
{
    std::vector<Ratio> out;
    for (double percentage : self.get<std::vector<double>>(key))
        out.push_back(Ratio(percentage / 100));
    return out;
}

//= cura::Settings::get | ta=std::vector<int, std::allocator<int>>
std::vector<int> r_std__vector_int_(const S& self, K key)
{
    std::vector<int> out;
    for (double x : self.get<std::vector<double>>(key))
        out.push_back(static_cast<int>(std::round(x)));
    return out;
}

//= cura::Settings::get | ta=cura::FlowTempGraph
FlowTempGraph r_FlowTempGraph(const S& self, K key)
{
    std::string value_string = self.get<std::string>(key);

    FlowTempGraph result;
    if (value_string.empty())
    {
        return result; // Empty at this point.
    }
    /* Match with:
     * - the last opening bracket '['
     * - then a bunch of characters until the first comma
     * - a comma
     * - a bunch of characters until the first closing bracket ']'.
     * This matches with any substring which looks like "[ 124.512 , 124.1 ]".
     */
    std::regex regex("(\\[([^,\\[]*),([^,\\]]*)\\])");

    // Default constructor = end-of-sequence:
    std::regex_token_iterator<std::string::iterator> rend;

    const int submatches[] = { 1, 2, 3 }; // Match whole pair, first number and second number of a pair.
    std::regex_token_iterator<std::string::iterator> match_iter(value_string.begin(), value_string.end(), regex, submatches);
    while (match_iter != rend)
    {
        match_iter++; // Match the whole pair.
        if (match_iter == rend)
        {
            break;
        }
        std::string first_substring = *match_iter++;
        std::string second_substring = *match_iter++;
        try
        {
            double first = std::stod(first_substring);
            double second = std::stod(second_substring);
            result.data_.emplace_back(first, second);
        }
        catch (const std::invalid_argument& e)
        {
        }
    }

    return result;
}

//= cura::Settings::get | ta=cura::Shape
Shape r_Shape(const S& self, K key)
{
    std::string value_string = self.get<std::string>(key);

    Shape result;
    if (value_string.empty())
    {
        return result; // Empty at this point.
    }
    /* We're looking to match one or more floating point values separated by
     * commas and surrounded by square brackets. Note that because the QML
     * RegExpValidator only stops unrecognised characters being input and
     * doesn't actually barf if the trailing ']' is missing, we are lenient here
     * and make that bracket optional.
     */
    std::regex polygons_regex(R"(\[(.*)\]?)");
    std::smatch polygons_match;
    if (std::regex_search(value_string, polygons_match, polygons_regex) && polygons_match.size() > 1)
    {
        std::string polygons_string = polygons_match.str(1);

        std::regex polygon_regex(R"(\[((\[[^\[\]]*\]\s*,?\s*)*)\]\s*,?)"); // matches with a list of lists (a list of 2D vertices)
        std::smatch polygon_match;

        std::regex_token_iterator<std::string::iterator> rend; // Default constructor gets the end-of-sequence iterator.
        std::regex_token_iterator<std::string::iterator> polygon_match_iter(polygons_string.begin(), polygons_string.end(), polygon_regex, 0);
        while (polygon_match_iter != rend)
        {
            std::string polygon_str = *polygon_match_iter++;

            Polygon& poly = result.newLine();

            std::regex point2D_regex(R"(\[([^,\[]*),([^,\]]*)\])"); // matches to a list of exactly two things

            const int submatches[] = { 1, 2 }; // Match first number and second number of a pair.
            std::regex_token_iterator<std::string::iterator> match_iter(polygon_str.begin(), polygon_str.end(), point2D_regex, submatches);
            while (match_iter != rend)
            {
                std::string first_substring = *match_iter++;
                std::string second_substring = *match_iter++;
                try
                {
                    double first = std::stod(first_substring);
                    double second = std::stod(second_substring);
                    poly.emplace_back(MM2INT(first), MM2INT(second));
                }
                catch (const std::invalid_argument& e)
                {
                }
                if (match_iter == rend)
                {
                    break;
                }
            }
        }
    }
    return result;
}

//= cura::Settings::get | ta=cura::Matrix4x3D
Matrix4x3D r_Matrix4x3D(const S& self, K key)
{
    const std::string value_string = self.get<std::string>(key);

    Matrix4x3D result;
    if (value_string.empty())
    {
        return result; // Standard matrix ([[1,0,0], [0,1,0], [0,0,1]]).
    }

    std::string num("([^,\\] ]*)"); // Match with anything but the next ',' ']' or space and capture the match.
    std::ostringstream row; // Match with "[num,num,num]" and ignore whitespace.
    row << "\\s*\\[\\s*" << num << "\\s*,\\s*" << num << "\\s*,\\s*" << num << "\\s*\\]\\s*";
    std::ostringstream matrix; // Match with "[row,row,row]" and ignore whitespace.
    matrix << "\\s*\\[\\s*" << row.str() << "\\s*,\\s*" << row.str() << "\\s*,\\s*" << row.str() << "\\]\\s*";

    std::regex point_matrix_regex(matrix.str());
    std::cmatch sub_matches; // Same as std::match_results<const char*> cm;
    std::regex_match(value_string.c_str(), sub_matches, point_matrix_regex);
    if (sub_matches.size() != 10) // One match for the whole string, nine for the cells.
    {
        return result; // Standard matrix ([[1,0,0], [0,1,0], [0,0,1]]).
    }

    size_t sub_match_index = 1; // Skip the first because the first submatch is the whole string.
    for (size_t x = 0; x < 3; x++)
    {
        for (size_t y = 0; y < 3; y++)
        {
            std::sub_match<const char*> sub_match = sub_matches[sub_match_index];
            result.m[y][x] = strtod(std::string(sub_match.str()).c_str(), nullptr);
            sub_match_index++;
        }
    }

    return result;
}

//= cura::Settings::get | ta=std::vector<double, std::allocator<double>>
std::vector<double> r_std__vector_double_(const S& self, K key)
{
    const std::string& value_string = self.get<std::string>(key);

    std::vector<double> result;
    if (value_string.empty())
    {
        return result;
    }

    /* We're looking to match one or more floating point values separated by
     * commas and surrounded by square brackets. Note that because the QML
     * RegExpValidator only stops unrecognised characters being input and
     * doesn't actually barf if the trailing ']' is missing, we are lenient here
     * and make that bracket optional.
     */
    std::regex list_contents_regex(R"(\[([^\]]*)\]?)");
    std::smatch list_contents_match;
    if (std::regex_search(value_string, list_contents_match, list_contents_regex) && list_contents_match.size() > 1)
    {
        std::string elements = list_contents_match.str(1);
        std::regex element_regex(R"(\s*([+-]?[0-9]*\.?[0-9]+)\s*,?)");
        std::regex_token_iterator<std::string::iterator> rend; // Default constructor gets the end-of-sequence iterator.

        std::regex_token_iterator<std::string::iterator> match_iter(elements.begin(), elements.end(), element_regex, 0);
        while (match_iter != rend)
        {
            std::string value = *match_iter++;
            try
            {
                result.push_back(std::stod(value));
            }
            catch (const std::invalid_argument& e)
            {
            }
        }
    }
    return result;
}

//= cura::Settings::get | ta=std::vector<cura::AngleDegrees, std::allocator<cura::AngleDegrees>>
std::vector<AngleDegrees> r_std__vector_AngleDegrees_(const S& self, K key)
{
    std::vector<double> values_doubles = self.get<std::vector<double>>(key);
    return std::vector<AngleDegrees>(values_doubles.begin(), values_doubles.end()); // Cast them to AngleDegrees.
}

//= cura::operator&
int r2017(BrimLocation location1, BrimLocation location2)
{
    return static_cast<int>(location1) & static_cast<int>(location2);
}
//END
}  // namespace ref
