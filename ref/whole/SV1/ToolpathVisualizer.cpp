// What the functions of this unit compute.
#include "utils/ToolpathVisualizer.h"
#include <sstream>
#include "geometry/Point3LL.h"
namespace cura
{
//= cura::ToolpathVisualizer::widths
void ToolpathVisualizer::widths(
    const std::vector<ExtrusionSegment>& all_segments,
    coord_t nozzle_size,
    coord_t max_dev,
    coord_t min_w,
    bool rounded_visualization,
    bool exaggerate_widths)
{
    Point3LL middle(255, 255, 255);
    Point3LL wide(255, 0, 0);
    Point3LL narrow(0, 0, 255);
    for (double w = 0.9; w > 0.25; w = 1.0 - (1.0 - w) * 1.2)
    {
        int brightness = rounded_visualization ? 255 - 200 * (w - .25) : 192;
        for (size_t segment_idx = 0; segment_idx < all_segments.size(); segment_idx++)
        {
            ExtrusionSegment ss = all_segments[segment_idx];
            for (ExtrusionSegment s : ss.discretize(MM2INT(0.1)))
            {
                coord_t avg_w = (s.from_.w_ + s.to_.w_) / 2;
                Point3LL clr;
                double color_ratio = std::min(1.0, double(std::abs(avg_w - nozzle_size)) / max_dev);
                color_ratio = color_ratio * .5 + .5 * sqrt(color_ratio);
                if (avg_w > nozzle_size)
                {
                    clr = wide * color_ratio + middle * (1.0 - color_ratio);
                }
                else
                {
                    clr = narrow * color_ratio + middle * (1.0 - color_ratio);
                }
                clr = clr * brightness / 255;
                if (exaggerate_widths)
                {
                    s.from_.w_ = std::max(min_w, min_w + (s.from_.w_ - (nozzle_size - max_dev)) * 5 / 4);
                    s.to_.w_ = std::max(min_w, min_w + (s.to_.w_ - (nozzle_size - max_dev)) * 5 / 4);
                }
                s.from_.w_ *= w / .9;
                s.to_.w_ *= w / .9;
                Shape covered = s.toShape();
                svg_.write(covered, { .surface = { SVG::RgbColor(clr.x_, clr.y_, clr.z_) } });
            }
        }
        if (! rounded_visualization)
            break;
        svg_.nextLayer();
    }
}
//END
}
