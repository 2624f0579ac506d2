// What the functions of this unit compute.
#ifndef VELOCITY_H
#define VELOCITY_H
#include "utils/types/numeric_facade.h"
namespace cura
{
struct Velocity : public utils::NumericFacade<double>
{
    using base_type = utils::NumericFacade<double>;
    using base_type::NumericFacade;
//= cura::Velocity::Velocity
    constexpr Velocity(const base_type& base) noexcept
        : base_type{ base } {};
//END
};
struct Acceleration : public utils::NumericFacade<double>
{
    using base_type = utils::NumericFacade<double>;
    using base_type::NumericFacade;
//= cura::Acceleration::Acceleration
    constexpr Acceleration(const base_type& base) noexcept
        : base_type{ base } {};
//END
};
}
#endif
