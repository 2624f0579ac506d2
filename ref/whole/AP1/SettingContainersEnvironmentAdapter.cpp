// What the functions of this unit compute.
#include "settings/SettingContainersEnvironmentAdapter.h"
#include <cura-formulae-engine/parser/parser.h>
#include <range/v3/view/concat.hpp>
#include <range/v3/view/map.hpp>
#include "settings/Settings.h"
namespace cfe = CuraFormulaeEngine;
namespace cura
{
//= cura::SettingContainersEnvironmentAdapter::SettingContainersEnvironmentAdapter
SettingContainersEnvironmentAdapter::SettingContainersEnvironmentAdapter(const Settings& settings, const cfe::env::Environment* shadow_environment)
    : cfe::env::ChainableEnvironment(shadow_environment)
    , settings_(settings)
{
}
//END
//= cura::SettingContainersEnvironmentAdapter::getImpl
std::optional<cfe::eval::Value> SettingContainersEnvironmentAdapter::getImpl(const std::string& setting_id) const noexcept
{
    constexpr bool parent_lookup = true;
    if (! settings_.has(setting_id, parent_lookup))
    {
        return std::nullopt;
    }
    const std::string setting_raw_value = settings_.get<std::string>(setting_id);
    zeus::expected<cfe::ast::ExprPtr, cfe::parser::error_t> parse_result = cfe::parser::parse(setting_raw_value);
    if (! parse_result.has_value())
    {
        return cfe::eval::Value(setting_raw_value);
    }
    cfe::env::EnvironmentMap env;
    const cfe::ast::ExprPtr& expression = parse_result.value();
    cfe::eval::Result eval_result = expression.evaluate(&env);
    if (! eval_result.has_value())
    {
        return cfe::eval::Value(setting_raw_value);
    }
    return eval_result.value();
}
//END
//= cura::SettingContainersEnvironmentAdapter::getAllImpl
std::unordered_map<std::string, cfe::eval::Value> SettingContainersEnvironmentAdapter::getAllImpl() const noexcept
{
    std::unordered_map<std::string, cfe::eval::Value> result;
    for (const std::string& key : settings_.getKeys())
    {
        std::optional<cfe::eval::Value> value = get(key);
        if (value.has_value())
        {
            result[key] = value.value();
        }
    }
    return result;
}
//END
}
