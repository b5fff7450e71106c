#include "fwroute.hpp"
#include "lue/framework/algorithm/definition/accu_fraction.hpp"
#include "lue/framework/algorithm/value_policies/accu_fraction.hpp"

namespace fw {
    void op_accu_fraction(World& w, Net& n, Op const& op)
    {
        two_results(w, n, op, 0.0625, false,
            [](auto const& net, auto const& x, auto const& p) { return lue::value_policies::accu_fraction(net, x, p); },
            [](D x, D p) { return x >= 0 && p >= 0 && p <= 1; },
            [](D in, D p) -> std::pair<D, D> { return {p * in, in - p * in}; });
    }
}  // namespace fw
