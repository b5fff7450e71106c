#include "fwroute.hpp"
#include "lue/framework/algorithm/definition/accu_threshold.hpp"
#include "lue/framework/algorithm/value_policies/accu_threshold.hpp"

namespace fw {
    void op_accu_threshold(World& w, Net& n, Op const& op)
    {
        two_results(w, n, op, 0.75, true,
            [](auto const& net, auto const& x, auto const& p) { return lue::value_policies::accu_threshold(net, x, p); },
            [](D x, D p) { return x >= 0 && p >= 0; },
            [](D in, D p) -> std::pair<D, D> { if (in > p) return {in - p, p}; return {0.0, in}; });
    }
}  // namespace fw
