// What the functions of this unit compute.
#ifndef SKELETAL_TRAPEZOIDATION_JOINT_H
#define SKELETAL_TRAPEZOIDATION_JOINT_H
#include <memory>
#include "BeadingStrategy/BeadingStrategy.h"
#include "geometry/Point2LL.h"
namespace cura
{
class SkeletalTrapezoidationJoint
{
    using Beading = BeadingStrategy::Beading;
public:
    struct BeadingPropagation
    {
        Beading beading_;
        coord_t dist_to_bottom_source_;
        coord_t dist_from_top_source_;
        bool is_upward_propagated_only_;
//= cura::SkeletalTrapezoidationJoint::BeadingPropagation::BeadingPropagation
        BeadingPropagation(const Beading& beading)
            : beading_(beading)
            , dist_to_bottom_source_(0)
            , dist_from_top_source_(0)
            , is_upward_propagated_only_(false)
        {
        }
//END
    };
    coord_t distance_to_boundary_;
    coord_t bead_count_;
    double transition_ratio_;
    SkeletalTrapezoidationJoint()
        : distance_to_boundary_(-1)
        , bead_count_(-1)
        , transition_ratio_(0)
    {
    }
    bool hasBeading() const
    {
        return beading_.use_count() > 0;
    }
    void setBeading(std::shared_ptr<BeadingPropagation>& storage)
    {
        beading_ = storage;
    }
    std::shared_ptr<BeadingPropagation> getBeading() const
    {
        return beading_.lock();
    }
private:
    std::weak_ptr<BeadingPropagation> beading_;
};
}
#endif
