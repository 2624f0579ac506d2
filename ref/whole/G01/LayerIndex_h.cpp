// What the functions of this unit compute.
#ifndef LAYERINDEX_H
#define LAYERINDEX_H
#include <functional>
#include <fmt/format.h>
#include "utils/types/generic.h"
namespace cura
{
struct LayerIndex
{
    using value_type = int64_t;
    using difference_type = std::ptrdiff_t;
    value_type value{};
    constexpr LayerIndex() noexcept = default;
    constexpr LayerIndex(const LayerIndex& other) noexcept = default;
    constexpr LayerIndex(LayerIndex&& other) noexcept = default;
//= skip cura::LayerIndex::LayerIndex
    constexpr explicit LayerIndex(const utils::floating_point auto val) noexcept
        : value{ static_cast<value_type>(val) }
    {
    }
//END
//= cura::LayerIndex::LayerIndex
    constexpr LayerIndex(const utils::integral auto val) noexcept
        : value{ static_cast<value_type>(val) }
    {
    }
//END
    constexpr LayerIndex& operator=(const LayerIndex& other) noexcept = default;
//= skip cura::LayerIndex::operator=
    constexpr LayerIndex& operator=(const utils::integral auto& other) noexcept
    {
        this->value = static_cast<value_type>(other);
        return *this;
    }
//END
    constexpr LayerIndex& operator=(LayerIndex&& other) noexcept = default;
//= skip cura::LayerIndex::operator=
    constexpr LayerIndex& operator=(const utils::integral auto&& other) noexcept
    {
        this->value = static_cast<value_type>(other);
        return *this;
    }
//END
    ~LayerIndex() noexcept = default;
//= cura::LayerIndex::operator long
    constexpr operator value_type() const noexcept
    {
        return value;
    }
//END
    constexpr bool operator==(const LayerIndex& other) const noexcept
    {
        return value == other.value;
    }
//= skip cura::LayerIndex::operator==
    constexpr bool operator==(const utils::integral auto& other) const noexcept
    {
        return value == static_cast<value_type>(other);
    }
//END
    constexpr auto operator<=>(const LayerIndex& other) const noexcept = default;
//= cura::LayerIndex::operator<=>
    constexpr auto operator<=>(const utils::integral auto& other) const noexcept
    {
        return value <=> static_cast<value_type>(other);
    };
//END
    constexpr LayerIndex& operator+=(const LayerIndex& other) noexcept
    {
        value += other.value;
        return *this;
    }
//= skip cura::LayerIndex::operator+=
    constexpr LayerIndex& operator+=(const utils::integral auto& other) noexcept
    {
        value += static_cast<value_type>(other);
        return *this;
    }
//END
    constexpr LayerIndex& operator-=(const LayerIndex& other) noexcept
    {
        value -= other.value;
        return *this;
    }
//= skip cura::LayerIndex::operator-=
    constexpr LayerIndex& operator-=(const utils::integral auto& other) noexcept
    {
        value -= static_cast<value_type>(other);
        return *this;
    }
//END
    constexpr LayerIndex& operator*=(const LayerIndex& other) noexcept
    {
        value *= other.value;
        return *this;
    }
//= skip cura::LayerIndex::operator*=
    constexpr LayerIndex& operator*=(const utils::integral auto& other) noexcept
    {
        value *= static_cast<value_type>(other);
        return *this;
    }
//END
    constexpr LayerIndex& operator/=(const LayerIndex& other)
    {
        value /= other.value;
        return *this;
    }
//= skip cura::LayerIndex::operator/=
    constexpr LayerIndex& operator/=(const utils::integral auto& other)
    {
        value /= static_cast<value_type>(other);
        return *this;
    }
//END
    constexpr LayerIndex operator+(const LayerIndex& other) const noexcept
    {
        return { value + other.value };
    }
    constexpr LayerIndex operator+(LayerIndex&& other) const noexcept
    {
        return { value + other.value };
    }
//= cura::LayerIndex::operator+
    constexpr LayerIndex operator+(const utils::integral auto& other) const noexcept
    {
        return { value + static_cast<value_type>(other) };
    }
//END
    constexpr LayerIndex operator-(const LayerIndex& other) const noexcept
    {
        return { value - other.value };
    }
//= cura::LayerIndex::operator-
    constexpr LayerIndex operator-(const utils::integral auto& other) const noexcept
    {
        return { value - static_cast<value_type>(other) };
    }
//END
    constexpr LayerIndex operator*(const LayerIndex& other) const noexcept
    {
        return { value * other.value };
    }
//= cura::LayerIndex::operator*
    constexpr LayerIndex operator*(const utils::integral auto& other) const noexcept
    {
        return { value * static_cast<value_type>(other) };
    }
//END
    constexpr LayerIndex operator/(const LayerIndex& other) const
    {
        return { value / other.value };
    }
//= skip cura::LayerIndex::operator/
    constexpr LayerIndex operator/(const utils::integral auto& other) const
    {
        return { value / static_cast<value_type>(other) };
    }
//END
    constexpr LayerIndex operator-() const noexcept
    {
        return { -value };
    }
    constexpr LayerIndex& operator++() noexcept
    {
        ++value;
        return *this;
    }
//= cura::LayerIndex::operator++
    LayerIndex operator++(int) noexcept
    {
        LayerIndex tmp{ *this };
        operator++();
        return tmp;
    }
//END
    constexpr LayerIndex& operator--() noexcept
    {
        --value;
        return *this;
    }
//= cura::LayerIndex::operator--
    LayerIndex operator--(int) noexcept
    {
        LayerIndex tmp{ *this };
        operator--();
        return tmp;
    }
//END
};
constexpr auto format_as(LayerIndex index)
{
    return index.value;
}
constexpr LayerIndex distance(const LayerIndex& lhs, const LayerIndex& rhs)
{
    return rhs - lhs;
}
}
namespace std
{
template<>
struct hash<cura::LayerIndex>
{
//= std::hash::operator()
    auto operator()(const cura::LayerIndex& layer_index) const
    {
        return hash<decltype(layer_index.value)>()(layer_index.value);
    }
//END
};
}
#endif
#include "Application.h"
#include "Slice.h"
#include "Scene.h"
#include "sliceDataStorage.h"
#include "LayerPlan.h"
#include "FffGcodeWriter.h"
#include "TreeSupport.h"
#include "SkirtBrim.h"
#include "MeshGroup.h"
#include "utils/polygonUtils.h"
#include "utils/ExtrusionLine.h"
#include "slicer.h"
#include "infill/LightningTreeNode.h"
#include "utils/PolygonsSegmentIndex.h"
#include "PathOrderOptimizer.h"
//= instance
template struct std::hash<cura::LayerIndex>;
//END
