// What reading a setting must yield (S01: which value applies, S02: unit conversion, S03: option texts).
#include <numbers>
#include <regex>
#include <string>
#include <unordered_map>
#include <vector>
#include "Application.h"
#include "BoostInterface.hpp"
#include "ExtruderTrain.h"
#include "Slice.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "settings/EnumSettings.h"
#include "settings/FlowTempGraph.h"
#include "settings/Settings.h"
#include "settings/types/Angle.h"
#include "settings/types/Duration.h"
#include "settings/types/LayerIndex.h"
#include "settings/types/Ratio.h"
#include "settings/types/Temperature.h"
#include "settings/types/Velocity.h"
#include "utils/Matrix4x3D.h"
#include "utils/types/string_switch.h"

namespace ref
{
using namespace cura;
using S = Settings;
using K = const std::string&;

//= cura::Settings::get | ta=std::basic_string<char, std::char_traits<char>, std::allocator<char>>
std::string lookup(const S& self, K key)
{
    if (self.settings.count(key))
        return self.settings.at(key);
    const auto& limited = Application::getInstance().current_slice_->scene.limit_to_extruder;
    if (limited.count(key))
        return limited.at(key)->settings_.getWithoutLimiting(key);
    if (self.parent == nullptr)
        std::exit(2);
    return self.parent->get<std::string>(key);
}

//= cura::Settings::getWithoutLimiting
std::string lookup_unlimited(const S& self, K key)
{
    if (self.settings.count(key))
        return self.settings.at(key);
    if (self.parent == nullptr)
        std::exit(2);
    return self.parent->getWithoutLimiting(key);
}

//= cura::Settings::has
bool present(const S& self, K key, const bool inherited)
{
    if (self.settings.count(key))
        return true;
    if (! inherited)
        return false;
    const auto& limited = Application::getInstance().current_slice_->scene.limit_to_extruder;
    if (limited.count(key))
    {
        for (const S* s = &limited.at(key)->settings_; s != nullptr; s = s->parent)
        {
            if (s->settings.count(key))
                return true;
        }
        return false;
    }
    return self.parent != nullptr && self.parent->has(key, inherited);
}

//= cura::Settings::add
void store(S& self, K key, K value)
{
    self.settings[key] = value;
}

//= cura::Settings::remove
void forget(S& self, K key)
{
    if (self.settings.count(key))
        self.settings.erase(key);
}

//= cura::Settings::setParent
void inherit(S& self, const S* from)
{
    self.parent = from;
}

//END
}  // namespace ref
