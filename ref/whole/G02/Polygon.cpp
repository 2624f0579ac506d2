// What the functions of this unit compute.
#include "geometry/Polygon.h"
#include <cstddef>
#include <numbers>
#include "geometry/Point3Matrix.h"
#include "geometry/Shape.h"
#include "utils/ListPolyIt.h"
#include "utils/linearAlg2D.h"
namespace cura
{
//= cura::Polygon::smoothOutward
void Polygon::smoothOutward(const AngleDegrees min_angle, int shortcut_length, Polygon& result) const
{
    int shortcut_length2 = shortcut_length * shortcut_length;
    double cos_min_angle = std::cos(min_angle / 180 * std::numbers::pi);
    ListPolygon poly;
    ListPolyIt::convertPolygonToList(*this, poly);
    {
        ListPolyIt p1_it(poly, poly.begin());
        do
        {
            ListPolyIt next = p1_it.next();
            if (vSize2(p1_it.p() - next.p()) < 100LL)
            {
                p1_it.remove();
            }
            p1_it = next;
        } while (p1_it != ListPolyIt(poly, poly.begin()));
    }
    ListPolyIt p1_it(poly, poly.begin());
    do
    {
        const Point2LL p1 = p1_it.p();
        ListPolyIt p0_it = p1_it.prev();
        ListPolyIt p2_it = p1_it.next();
        const Point2LL p0 = p0_it.p();
        const Point2LL p2 = p2_it.p();
        const Point2LL v10 = p0 - p1;
        const Point2LL v12 = p2 - p1;
        double cos_angle = INT2MM(INT2MM(dot(v10, v12))) / vSizeMM(v10) / vSizeMM(v12);
        bool is_left_angle = LinearAlg2D::pointIsLeftOfLine(p1, p0, p2) > 0;
        if (cos_angle > cos_min_angle && is_left_angle)
        {
            Point2LL v02 = p2_it.p() - p0_it.p();
            if (vSize2(v02) >= shortcut_length2)
            {
                smoothCornerSimple(p0, p1, p2, p0_it, p1_it, p2_it, v10, v12, v02, shortcut_length, cos_angle);
            }
            else
            {
                bool remove_poly = smoothCornerComplex(p1, p0_it, p2_it, shortcut_length);
                if (remove_poly)
                {
                    return;
                }
            }
            p1_it = p2_it;
        }
        else
        {
            ++p1_it;
        }
    } while (p1_it != ListPolyIt(poly, poly.begin()));
    ListPolyIt::convertListPolygonToPolygon(poly, result);
}
//END
//= cura::Polygon::smoothCornerComplex
bool Polygon::smoothCornerComplex(const Point2LL& p1, ListPolyIt& p0_it, ListPolyIt& p2_it, const int64_t shortcut_length)
{
    int64_t shortcut_length2 = shortcut_length * shortcut_length;
    bool forward_is_blocked = false;
    bool forward_is_too_far = false;
    bool backward_is_blocked = false;
    bool backward_is_too_far = false;
    while (true)
    {
        const bool forward_has_converged = forward_is_blocked || forward_is_too_far;
        const bool backward_has_converged = backward_is_blocked || backward_is_too_far;
        if (forward_has_converged && backward_has_converged)
        {
            if (forward_is_too_far && backward_is_too_far && vSize2(p0_it.prev().p() - p2_it.next().p()) < shortcut_length2)
            {
                --p0_it;
                ++p2_it;
                forward_is_too_far = false;
                backward_is_too_far = false;
                continue;
            }
            break;
        }
        smoothOutwardStep(p1, shortcut_length2, p0_it, p2_it, forward_is_blocked, backward_is_blocked, forward_is_too_far, backward_is_too_far);
        if (p0_it.prev() == p2_it || p0_it == p2_it)
        {
            if (forward_is_too_far && backward_is_too_far)
            {
                break;
            }
            return true;
        }
    }
    const Point2LL v02 = p2_it.p() - p0_it.p();
    const int64_t v02_size2 = vSize2(v02);
    if (std::abs(v02_size2 - shortcut_length2) < shortcut_length * 10)
    {
    }
    else if (! backward_is_blocked && ! forward_is_blocked)
    {
        const auto v02_size = static_cast<int64_t>(std::sqrt(v02_size2));
        const ListPolyIt p0_2_it = p0_it.prev();
        const ListPolyIt p2_2_it = p2_it.next();
        const Point2LL p2_2 = p2_2_it.p();
        const Point2LL p0_2 = p0_2_it.p();
        const Point2LL v02_2 = p0_2 - p2_2;
        const int64_t v02_2_size = vSize(v02_2);
        double progress
            = std::min(1.0, INT2MM(shortcut_length - v02_size) / INT2MM(v02_2_size - v02_size));
        assert(progress >= 0.0f && progress <= 1.0f && "shortcut length must be between last length and new length");
        const Point2LL new_p0 = p0_it.p() + (p0_2 - p0_it.p()) * progress;
        p0_it = ListPolyIt::insertPointNonDuplicate(p0_2_it, p0_it, new_p0);
        const Point2LL new_p2 = p2_it.p() + (p2_2 - p2_it.p()) * progress;
        p2_it = ListPolyIt::insertPointNonDuplicate(p2_it, p2_2_it, new_p2);
    }
    else if (! backward_is_blocked)
    {
        const ListPolyIt p0_2_it = p0_it.prev();
        const Point2LL p0 = p0_it.p();
        const Point2LL p0_2 = p0_2_it.p();
        const Point2LL p2 = p2_it.p();
        Point2LL new_p0;
        bool success = LinearAlg2D::getPointOnLineWithDist(p2, p0, p0_2, shortcut_length, new_p0);
        if (success)
        {
#ifdef ASSERT_INSANE_OUTPUT
            assert(new_p0.X < 400000 && new_p0.Y < 400000);
#endif
            p0_it = ListPolyIt::insertPointNonDuplicate(p0_2_it, p0_it, new_p0);
        }
        else
        {
            if (vSize(p2 - p0_2) < vSize2(p2 - p0))
            {
                p0_it = p0_2_it;
            }
        }
    }
    else if (! forward_is_blocked)
    {
        const ListPolyIt p2_2_it = p2_it.next();
        const Point2LL p0 = p0_it.p();
        const Point2LL p2 = p2_it.p();
        const Point2LL p2_2 = p2_2_it.p();
        Point2LL new_p2;
        bool success = LinearAlg2D::getPointOnLineWithDist(p0, p2, p2_2, shortcut_length, new_p2);
        if (success)
        {
#ifdef ASSERT_INSANE_OUTPUT
            assert(new_p2.X < 400000 && new_p2.Y < 400000);
#endif
            p2_it = ListPolyIt::insertPointNonDuplicate(p2_it, p2_2_it, new_p2);
        }
        else
        {
            if (vSize(p2_2 - p0) < vSize2(p2 - p0))
            {
                p2_it = p2_2_it;
            }
        }
    }
    else
    {
    }
    while (p0_it.next() != p2_it)
    {
        p0_it.next().remove();
    }
    return false;
}
//END
}
