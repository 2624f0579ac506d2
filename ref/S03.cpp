// What reading a setting must yield (S01: which value applies, S02: unit conversion, S03: option texts).
#include <numbers>
#include <regex>
#include <string>
#include <unordered_map>
#include <vector>
#include "Application.h"
#include "BoostInterface.hpp"
#include "ExtruderTrain.h"
#include "Slice.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "settings/EnumSettings.h"
#include "settings/FlowTempGraph.h"
#include "settings/Settings.h"
#include "settings/types/Angle.h"
#include "settings/types/Duration.h"
#include "settings/types/LayerIndex.h"
#include "settings/types/Ratio.h"
#include "settings/types/Temperature.h"
#include "settings/types/Velocity.h"
#include "utils/Matrix4x3D.h"
#include "utils/types/string_switch.h"

namespace ref
{
using namespace cura;
using S = Settings;
using K = const std::string&;

//= cura::Settings::get | ta=cura::DraftShieldHeightLimitation
DraftShieldHeightLimitation r_DraftShieldHeightLimitation(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    switch (utils::hash_enum(text)) // texts supplied by a plugin (PLUGIN<n>::<name>) all count as "plugin"
    {
    case utils::hash_enum("full"):
        return DraftShieldHeightLimitation::FULL;
    case utils::hash_enum("limited"):
        return DraftShieldHeightLimitation::LIMITED;
    case utils::hash_enum("plugin"):
        return DraftShieldHeightLimitation::PLUGIN;
    }
    return DraftShieldHeightLimitation::FULL;
}

//= cura::Settings::get | ta=cura::EGCodeFlavor
EGCodeFlavor r_EGCodeFlavor(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    switch (utils::hash_enum(text)) // texts supplied by a plugin (PLUGIN<n>::<name>) all count as "plugin"
    {
    case utils::hash_enum("Marlin"):
        return EGCodeFlavor::MARLIN;
    case utils::hash_enum("Griffin"):
        return EGCodeFlavor::GRIFFIN;
    case utils::hash_enum("Cheetah"):
        return EGCodeFlavor::CHEETAH;
    case utils::hash_enum("UltiGCode"):
        return EGCodeFlavor::ULTIGCODE;
    case utils::hash_enum("Makerbot"):
        return EGCodeFlavor::MAKERBOT;
    case utils::hash_enum("BFB"):
        return EGCodeFlavor::BFB;
    case utils::hash_enum("MACH3"):
        return EGCodeFlavor::MACH3;
    case utils::hash_enum("RepRap (Volumetric)"):
        return EGCodeFlavor::MARLIN_VOLUMATRIC;
    case utils::hash_enum("Repetier"):
        return EGCodeFlavor::REPETIER;
    case utils::hash_enum("RepRap (RepRap)"):
        return EGCodeFlavor::REPRAP;
    case utils::hash_enum("plugin"):
        return EGCodeFlavor::PLUGIN;
    }
    return EGCodeFlavor::MARLIN;
}

//= cura::Settings::get | ta=cura::EFillMethod
EFillMethod r_EFillMethod(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    switch (utils::hash_enum(text)) // texts supplied by a plugin (PLUGIN<n>::<name>) all count as "plugin"
    {
    case utils::hash_enum("none"):
        return EFillMethod::NONE;
    case utils::hash_enum("lines"):
        return EFillMethod::LINES;
    case utils::hash_enum("grid"):
        return EFillMethod::GRID;
    case utils::hash_enum("cubic"):
        return EFillMethod::CUBIC;
    case utils::hash_enum("cubicsubdiv"):
        return EFillMethod::CUBICSUBDIV;
    case utils::hash_enum("tetrahedral"):
        return EFillMethod::TETRAHEDRAL;
    case utils::hash_enum("quarter_cubic"):
        return EFillMethod::QUARTER_CUBIC;
    case utils::hash_enum("triangles"):
        return EFillMethod::TRIANGLES;
    case utils::hash_enum("trihexagon"):
        return EFillMethod::TRIHEXAGON;
    case utils::hash_enum("concentric"):
        return EFillMethod::CONCENTRIC;
    case utils::hash_enum("zigzag"):
        return EFillMethod::ZIG_ZAG;
    case utils::hash_enum("cross"):
        return EFillMethod::CROSS;
    case utils::hash_enum("cross_3d"):
        return EFillMethod::CROSS_3D;
    case utils::hash_enum("gyroid"):
        return EFillMethod::GYROID;
    case utils::hash_enum("lightning"):
        return EFillMethod::LIGHTNING;
    case utils::hash_enum("honeycomb"):
        return EFillMethod::HONEYCOMB;
    case utils::hash_enum("octagon"):
        return EFillMethod::OCTAGON;
    case utils::hash_enum("plugin"):
        return EFillMethod::PLUGIN;
    }
    return EFillMethod::NONE;
}

//= cura::Settings::get | ta=cura::EPlatformAdhesion
EPlatformAdhesion r_EPlatformAdhesion(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    switch (utils::hash_enum(text)) // texts supplied by a plugin (PLUGIN<n>::<name>) all count as "plugin"
    {
    case utils::hash_enum("skirt"):
        return EPlatformAdhesion::SKIRT;
    case utils::hash_enum("brim"):
        return EPlatformAdhesion::BRIM;
    case utils::hash_enum("raft"):
        return EPlatformAdhesion::RAFT;
    case utils::hash_enum("none"):
        return EPlatformAdhesion::NONE;
    case utils::hash_enum("plugin"):
        return EPlatformAdhesion::PLUGIN;
    }
    return EPlatformAdhesion::SKIRT;
}

//= cura::Settings::get | ta=cura::ESupportType
ESupportType r_ESupportType(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    switch (utils::hash_enum(text)) // texts supplied by a plugin (PLUGIN<n>::<name>) all count as "plugin"
    {
    case utils::hash_enum("none"):
        return ESupportType::NONE;
    case utils::hash_enum("everywhere"):
        return ESupportType::EVERYWHERE;
    case utils::hash_enum("buildplate"):
        return ESupportType::PLATFORM_ONLY;
    case utils::hash_enum("plugin"):
        return ESupportType::PLUGIN;
    }
    return ESupportType::NONE;
}

//= cura::Settings::get | ta=cura::ESupportStructure
ESupportStructure r_ESupportStructure(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    switch (utils::hash_enum(text)) // texts supplied by a plugin (PLUGIN<n>::<name>) all count as "plugin"
    {
    case utils::hash_enum("normal"):
        return ESupportStructure::NORMAL;
    case utils::hash_enum("tree"):
        return ESupportStructure::TREE;
    case utils::hash_enum("plugin"):
        return ESupportStructure::PLUGIN;
    }
    return ESupportStructure::NORMAL;
}

//= cura::Settings::get | ta=cura::EZSeamType
EZSeamType r_EZSeamType(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    switch (utils::hash_enum(text)) // texts supplied by a plugin (PLUGIN<n>::<name>) all count as "plugin"
    {
    case utils::hash_enum("shortest"):
        return EZSeamType::SHORTEST;
    case utils::hash_enum("random"):
        return EZSeamType::RANDOM;
    case utils::hash_enum("back"):
        return EZSeamType::USER_SPECIFIED;
    case utils::hash_enum("sharpest_corner"):
        return EZSeamType::SHARPEST_CORNER;
    case utils::hash_enum("plugin"):
        return EZSeamType::PLUGIN;
    }
    return EZSeamType::SHORTEST;
}

//= cura::Settings::get | ta=cura::EZSeamCornerPrefType
EZSeamCornerPrefType r_EZSeamCornerPrefType(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    switch (utils::hash_enum(text)) // texts supplied by a plugin (PLUGIN<n>::<name>) all count as "plugin"
    {
    case utils::hash_enum("z_seam_corner_outer"):
        return EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_OUTER;
    case utils::hash_enum("z_seam_corner_any"):
        return EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_ANY;
    case utils::hash_enum("z_seam_corner_weighted"):
        return EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_WEIGHTED;
    case utils::hash_enum("plugin"):
        return EZSeamCornerPrefType::PLUGIN;
    case utils::hash_enum("z_seam_corner_inner"):
        return EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER;
    }
    return EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER;
}

//= cura::Settings::get | ta=cura::ESurfaceMode
ESurfaceMode r_ESurfaceMode(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    switch (utils::hash_enum(text)) // texts supplied by a plugin (PLUGIN<n>::<name>) all count as "plugin"
    {
    case utils::hash_enum("normal"):
        return ESurfaceMode::NORMAL;
    case utils::hash_enum("surface"):
        return ESurfaceMode::SURFACE;
    case utils::hash_enum("both"):
        return ESurfaceMode::BOTH;
    case utils::hash_enum("plugin"):
        return ESurfaceMode::PLUGIN;
    }
    return ESurfaceMode::NORMAL;
}

//= cura::Settings::get | ta=cura::FillPerimeterGapMode
FillPerimeterGapMode r_FillPerimeterGapMode(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    switch (utils::hash_enum(text)) // texts supplied by a plugin (PLUGIN<n>::<name>) all count as "plugin"
    {
    case utils::hash_enum("nowhere"):
        return FillPerimeterGapMode::NOWHERE;
    case utils::hash_enum("everywhere"):
        return FillPerimeterGapMode::EVERYWHERE;
    case utils::hash_enum("plugin"):
        return FillPerimeterGapMode::PLUGIN;
    }
    return FillPerimeterGapMode::NOWHERE;
}

//= cura::Settings::get | ta=cura::BuildPlateShape
BuildPlateShape r_BuildPlateShape(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    switch (utils::hash_enum(text)) // texts supplied by a plugin (PLUGIN<n>::<name>) all count as "plugin"
    {
    case utils::hash_enum("rectangular"):
        return BuildPlateShape::RECTANGULAR;
    case utils::hash_enum("elliptic"):
        return BuildPlateShape::ELLIPTIC;
    case utils::hash_enum("plugin"):
        return BuildPlateShape::PLUGIN;
    }
    return BuildPlateShape::RECTANGULAR;
}

//= cura::Settings::get | ta=cura::CombingMode
CombingMode r_CombingMode(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    switch (utils::hash_enum(text)) // texts supplied by a plugin (PLUGIN<n>::<name>) all count as "plugin"
    {
    case utils::hash_enum("all"):
        return CombingMode::ALL;
    case utils::hash_enum("off"):
        return CombingMode::OFF;
    case utils::hash_enum("noskin"):
        return CombingMode::NO_SKIN;
    case utils::hash_enum("no_outer_surfaces"):
        return CombingMode::NO_OUTER_SURFACES;
    case utils::hash_enum("infill"):
        return CombingMode::INFILL;
    case utils::hash_enum("plugin"):
        return CombingMode::PLUGIN;
    }
    return CombingMode::ALL;
}

//= cura::Settings::get | ta=cura::SupportDistPriority
SupportDistPriority r_SupportDistPriority(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    switch (utils::hash_enum(text)) // texts supplied by a plugin (PLUGIN<n>::<name>) all count as "plugin"
    {
    case utils::hash_enum("xy_overrides_z"):
        return SupportDistPriority::XY_OVERRIDES_Z;
    case utils::hash_enum("z_overrides_xy"):
        return SupportDistPriority::Z_OVERRIDES_XY;
    case utils::hash_enum("plugin"):
        return SupportDistPriority::PLUGIN;
    }
    return SupportDistPriority::XY_OVERRIDES_Z;
}

//= cura::Settings::get | ta=cura::SlicingTolerance
SlicingTolerance r_SlicingTolerance(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    switch (utils::hash_enum(text)) // texts supplied by a plugin (PLUGIN<n>::<name>) all count as "plugin"
    {
    case utils::hash_enum("middle"):
        return SlicingTolerance::MIDDLE;
    case utils::hash_enum("inclusive"):
        return SlicingTolerance::INCLUSIVE;
    case utils::hash_enum("exclusive"):
        return SlicingTolerance::EXCLUSIVE;
    case utils::hash_enum("plugin"):
        return SlicingTolerance::PLUGIN;
    }
    return SlicingTolerance::MIDDLE;
}

//= cura::Settings::get | ta=cura::InsetDirection
InsetDirection r_InsetDirection(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    switch (utils::hash_enum(text)) // texts supplied by a plugin (PLUGIN<n>::<name>) all count as "plugin"
    {
    case utils::hash_enum("inside_out"):
        return InsetDirection::INSIDE_OUT;
    case utils::hash_enum("outside_in"):
        return InsetDirection::OUTSIDE_IN;
    case utils::hash_enum("plugin"):
        return InsetDirection::PLUGIN;
    }
    return InsetDirection::INSIDE_OUT;
}

//= cura::Settings::get | ta=cura::PrimeTowerMode
PrimeTowerMode r_PrimeTowerMode(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    if (text == "interleaved")
        return PrimeTowerMode::INTERLEAVED;
    return PrimeTowerMode::NORMAL;
}

//= cura::Settings::get | ta=cura::BrimLocation
BrimLocation r_BrimLocation(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    if (text == "everywhere")
        return BrimLocation::EVERYWHERE;
    if (text == "inside")
        return BrimLocation::INSIDE;
    return BrimLocation::OUTSIDE;
}

//= cura::Settings::get | ta=cura::CoolDuringExtruderSwitch
CoolDuringExtruderSwitch r_CoolDuringExtruderSwitch(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    if (text == "all_fans")
        return CoolDuringExtruderSwitch::ALL_FANS;
    if (text == "only_last_extruder")
        return CoolDuringExtruderSwitch::ONLY_LAST_EXTRUDER;
    return CoolDuringExtruderSwitch::UNCHANGED;
}

//= cura::Settings::get | ta=cura::InfillStartEndPreference
InfillStartEndPreference r_InfillStartEndPreference(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    if (text == "end_close_to_seam")
        return InfillStartEndPreference::END_CLOSE_TO_SEAM;
    if (text == "start_random")
        return InfillStartEndPreference::START_RANDOM;
    return InfillStartEndPreference::START_CLOSEST;
}

//= cura::Settings::get | ta=cura::RetractBeforeOuterWall
RetractBeforeOuterWall r_RetractBeforeOuterWall(const S& self, K key)
{
    const std::string text = self.get<std::string>(key);
    if (text == "force_retracted")
        return RetractBeforeOuterWall::RETRACTED;
    if (text == "force_not_retracted")
        return RetractBeforeOuterWall::NOT_RETRACTED;
    if (text == "force_not_retracted_from_infill")
        return RetractBeforeOuterWall::NOT_RETRACTED_FROM_INFILL;
    return RetractBeforeOuterWall::AUTOMATIC;
}

//= cura::utils::hash_djb2a
uint64_t text_hash(const std::string_view value)
{
    uint64_t hash = 5381;
    for (unsigned char c : value)
    {
        hash = (hash * 33) ^ c;
    }
    return hash;
}

//= cura::utils::hash_enum
uint64_t option_hash(const std::string_view value)
{
    if (value.size() > 6 && value[6] == ':')
        return utils::hash_djb2a("plugin");
    return utils::hash_djb2a(value);
}

//END
}  // namespace ref
