// What the functions of this unit compute.
#ifndef UTILS_TYPES_ARITHMITIC_FACADE_H
#define UTILS_TYPES_ARITHMITIC_FACADE_H
#include "utils/types/generic.h"
namespace cura::utils
{
template<floating_point T>
struct NumericFacade
{
    using value_type = T;
    value_type value{};
    constexpr NumericFacade() noexcept = default;
    constexpr NumericFacade(const NumericFacade& other) noexcept = default;
    constexpr NumericFacade(NumericFacade&& other) noexcept = default;
//= cura::utils::NumericFacade::NumericFacade
    constexpr NumericFacade(const floating_point auto val) noexcept
        : value{ static_cast<value_type>(val) } {};
//END
    constexpr explicit NumericFacade(const integral auto val) noexcept
        : value{ static_cast<value_type>(val) } {};
    constexpr NumericFacade& operator=(const NumericFacade& other) noexcept = default;
//= skip cura::utils::NumericFacade::operator=
    constexpr NumericFacade& operator=(const floating_point auto& other) noexcept
    {
        this->value = static_cast<value_type>(other);
        return *this;
    }
//END
    constexpr NumericFacade& operator=(NumericFacade&& other) noexcept = default;
//= skip cura::utils::NumericFacade::operator=
    constexpr NumericFacade& operator=(const floating_point auto&& other) noexcept
    {
        this->value = static_cast<value_type>(other);
        return *this;
    }
//END
    ~NumericFacade() noexcept = default;
//= skip cura::utils::NumericFacade::operator type-parameter-0-0
    constexpr operator value_type() const noexcept
    {
        return value;
    }
//END
    constexpr bool operator==(const NumericFacade& other) const noexcept
    {
        return value == other.value;
    }
//= skip cura::utils::NumericFacade::operator==
    constexpr bool operator==(const floating_point auto& other) const noexcept
    {
        return value == static_cast<value_type>(other);
    }
//END
    constexpr auto operator<=>(const NumericFacade& other) const noexcept = default;
//= skip cura::utils::NumericFacade::operator<=>
    constexpr auto operator<=>(const floating_point auto& other) const noexcept
    {
        return value <=> static_cast<value_type>(other);
    };
//END
//= skip cura::utils::NumericFacade::operator+=
    constexpr NumericFacade& operator+=(const NumericFacade& other) noexcept
    {
        value += other.value;
        return *this;
    }
//END
//= skip cura::utils::NumericFacade::operator+=
    constexpr NumericFacade& operator+=(const floating_point auto& other) noexcept
    {
        value += static_cast<value_type>(other);
        return *this;
    }
//END
//= skip cura::utils::NumericFacade::operator-=
    constexpr NumericFacade& operator-=(const NumericFacade& other) noexcept
    {
        value -= other.value;
        return *this;
    }
//END
//= skip cura::utils::NumericFacade::operator-=
    constexpr NumericFacade& operator-=(const floating_point auto& other) noexcept
    {
        value -= static_cast<value_type>(other);
        return *this;
    }
//END
    constexpr NumericFacade& operator*=(const NumericFacade& other) noexcept
    {
        value *= other.value;
        return *this;
    }
//= skip cura::utils::NumericFacade::operator*=
    constexpr NumericFacade& operator*=(const floating_point auto& other) noexcept
    {
        value *= static_cast<value_type>(other);
        return *this;
    }
//END
//= skip cura::utils::NumericFacade::operator/=
    constexpr NumericFacade& operator/=(const NumericFacade& other)
    {
        value /= other.value;
        return *this;
    }
//END
//= skip cura::utils::NumericFacade::operator/=
    constexpr NumericFacade& operator/=(const floating_point auto& other)
    {
        value /= static_cast<value_type>(other);
        return *this;
    }
//END
    constexpr NumericFacade operator+(const NumericFacade& other) const noexcept
    {
        return { value + other.value };
    }
    constexpr NumericFacade operator+(NumericFacade&& other) const noexcept
    {
        return { value + other.value };
    }
//= skip cura::utils::NumericFacade::operator+
    constexpr NumericFacade operator+(const floating_point auto& other) const noexcept
    {
        return { value + static_cast<value_type>(other) };
    }
//END
    constexpr NumericFacade operator-(const NumericFacade& other) const noexcept
    {
        return { value - other.value };
    }
//= skip cura::utils::NumericFacade::operator-
    constexpr NumericFacade operator-(const floating_point auto& other) const noexcept
    {
        return { value - static_cast<value_type>(other) };
    }
//END
    constexpr NumericFacade operator*(const NumericFacade& other) const noexcept
    {
        return { value * other.value };
    }
//= skip cura::utils::NumericFacade::operator*
    constexpr NumericFacade operator*(const floating_point auto& other) const noexcept
    {
        return { value * static_cast<value_type>(other) };
    }
//END
    constexpr NumericFacade operator/(const NumericFacade& other) const
    {
        return { value / other.value };
    }
//= skip cura::utils::NumericFacade::operator/
    constexpr NumericFacade operator/(const floating_point auto& other) const
    {
        return { value / static_cast<value_type>(other) };
    }
//END
    constexpr NumericFacade operator-() const noexcept
    {
        return { -value };
    }
};
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template struct cura::utils::NumericFacade<double>;
//END
