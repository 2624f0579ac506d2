// What the functions of this unit compute.
#include "utils/scoring/BestElementFinder.h"
#include <limits>
#include <range/v3/view/enumerate.hpp>
#include "utils/scoring/ScoringCriterion.h"
namespace cura
{
//= cura::BestElementFinder::findBestElement
std::optional<size_t> cura::BestElementFinder::findBestElement(const size_t candidates_count)
{
    std::vector<Candidate> best_candidates(candidates_count);
    for (size_t i = 0; i < candidates_count; ++i)
    {
        best_candidates[i].candidate_index = i;
    }
    const auto begin = best_candidates.begin();
    auto end = best_candidates.end();
    for (const auto& [pass_index, criteria_pass] : criteria_ | ranges::views::enumerate)
    {
        auto best_candidate_iterator = end;
        for (auto iterator = begin; iterator != end; ++iterator)
        {
            iterator->score = 0.0;
            for (const auto& weighed_criterion : criteria_pass.criteria)
            {
                iterator->score += weighed_criterion.criterion->computeScore(iterator->candidate_index) * weighed_criterion.weight;
            }
            if (best_candidate_iterator == end || iterator->score > best_candidate_iterator->score)
            {
                best_candidate_iterator = iterator;
            }
        }
        if (best_candidate_iterator == end)
        {
            return std::nullopt;
        }
        if (pass_index == criteria_.size() - 1)
        {
            return best_candidate_iterator->candidate_index;
        }
        const double best_score = best_candidate_iterator->score;
        const double delta_threshold = criteria_pass.outsider_delta_threshold + std::numeric_limits<double>::epsilon();
        end = std::remove_if(
            begin,
            end,
            [&best_score, &delta_threshold](const Candidate& candidate)
            {
                return best_score - candidate.score > delta_threshold;
            });
        if (std::distance(begin, end) == 1)
        {
            return begin->candidate_index;
        }
    }
    return begin != end ? std::make_optional(begin->candidate_index) : std::nullopt;
}
//END
}
