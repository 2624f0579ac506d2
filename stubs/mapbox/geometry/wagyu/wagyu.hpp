#pragma once
// Stand-in for mapbox wagyu: type declarations only.
#include <vector>
namespace mapbox { namespace geometry {
template<class T> struct point { T x, y; };
template<class T> struct linear_ring : std::vector<point<T>> { using std::vector<point<T>>::vector; linear_ring() = default; linear_ring(std::vector<point<T>>&& o) : std::vector<point<T>>(std::move(o)) {} };
template<class T> struct polygon : std::vector<linear_ring<T>> {};
template<class T> struct multi_polygon : std::vector<polygon<T>> {};
namespace wagyu {
enum clip_type { clip_type_intersection, clip_type_union, clip_type_difference, clip_type_x_or };
enum fill_type { fill_type_even_odd, fill_type_non_zero, fill_type_positive, fill_type_negative };
template<class T> class wagyu {
    multi_polygon<T> in_;
public:
    bool add_ring(const linear_ring<T>& r) { polygon<T> p; p.push_back(r); in_.push_back(p); return true; }
    template<class S> bool execute(clip_type, S& sln, fill_type, fill_type) { for (auto& p : in_) { sln.push_back(p); } return true; }
};
}
} }
