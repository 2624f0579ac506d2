// What the functions of this unit compute.
#include "geometry/Polyline.h"
#include <algorithm>
#include <numbers>
#include <numeric>
#include "geometry/LinesSet.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "settings/types/Angle.h"
#include "utils/linearAlg2D.h"
namespace cura
{
//= cura::Polyline::removeColinearEdges
void Polyline::removeColinearEdges(const AngleRadians max_deviation_angle)
{
    size_t num_removed_in_iteration = 0;
    do
    {
        num_removed_in_iteration = 0;
        std::vector<bool> process_indices(size(), true);
        bool go = true;
        while (go)
        {
            go = false;
            const ClipperLib::Path& rpath = getPoints();
            const size_t pathlen = rpath.size();
            if (pathlen <= 3)
            {
                return;
            }
            std::vector<bool> skip_indices(size(), false);
            std::vector<Point2LL> new_path;
            for (size_t point_idx = 0; point_idx < pathlen; ++point_idx)
            {
                if (! process_indices[point_idx])
                {
                    new_path.push_back(rpath[point_idx]);
                    continue;
                }
                if (point_idx == (pathlen - 1) && skip_indices[0])
                {
                    skip_indices[new_path.size()] = true;
                    go = true;
                    new_path.push_back(rpath[point_idx]);
                    break;
                }
                const Point2LL& prev = rpath[(point_idx - 1 + pathlen) % pathlen];
                const Point2LL& pt = rpath[point_idx];
                const Point2LL& next = rpath[(point_idx + 1) % pathlen];
                double angle = LinearAlg2D::getAngleLeft(prev, pt, next);
                if (angle >= std::numbers::pi)
                {
                    angle -= std::numbers::pi;
                }
                if (angle > max_deviation_angle && angle < std::numbers::pi - max_deviation_angle)
                {
                    new_path.push_back(pt);
                }
                else if (point_idx != (pathlen - 1))
                {
                    skip_indices[new_path.size()] = true;
                    go = true;
                    new_path.push_back(next);
                    ++point_idx;
                }
            }
            setPoints(std::move(new_path));
            num_removed_in_iteration += pathlen - size();
            process_indices.clear();
            process_indices.insert(process_indices.end(), skip_indices.begin(), skip_indices.end());
        }
    } while (num_removed_in_iteration > 0);
}
//END
}
