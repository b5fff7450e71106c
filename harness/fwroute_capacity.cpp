#include "fwroute.hpp"
#include "lue/framework/algorithm/definition/accu_capacity.hpp"
#include "lue/framework/algorithm/value_policies/accu_capacity.hpp"

namespace fw {
    void op_accu_capacity(World& w, Net& n, Op const& op)
    {
        two_results(w, n, op, 1.25, true,
            [](auto const& net, auto const& x, auto const& p) { return lue::value_policies::accu_capacity(net, x, p); },
            [](D x, D p) { return x >= 0 && p >= 0; },
            [](D in, D p) -> std::pair<D, D> { if (in > p) return {p, in - p}; return {in, 0.0}; });
    }
}  // namespace fw
