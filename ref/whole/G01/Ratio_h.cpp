// What the functions of this unit compute.
#ifndef RATIO_H
#define RATIO_H
#include "utils/types/numeric_facade.h"
namespace cura
{
struct Ratio : public utils::NumericFacade<double>
{
    using base_type = utils::NumericFacade<double>;
    using base_type::NumericFacade;
//= cura::Ratio::Ratio
    constexpr Ratio(const base_type& base) noexcept
        : base_type{ base } {};
//END
//= skip cura::Ratio::Ratio
    constexpr Ratio(const utils::numeric auto numerator, const utils::numeric auto divisor)
        : base_type{ static_cast<value_type>(numerator) / static_cast<value_type>(divisor) } {};
//END
};
constexpr Ratio operator""_r(const long double ratio)
{
    return { ratio };
}
}
#endif
