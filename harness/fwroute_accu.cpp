#include "fwroute.hpp"
#include "lue/framework/algorithm/definition/accu.hpp"
#include "lue/framework/algorithm/value_policies/accu.hpp"
#include "lue/framework/algorithm/default_policies/accu.hpp"

namespace fw {
    void op_accu(World& w, Net& n, Op const& op)   // net, variant, destination, -, inflow
    {
        Value x;
        Opt<Array<D>> out;
        bool plain = (op.arg(1) & 6) == 6;     // policies which do not know about no-data
        if (op.arg(1) & 1)
        {
            x.s = (D)(op.arg(4) % 17) * 0.25 - (op.arg(4) % 23 == 0 ? 5 : 0);
            lue::Scalar<D> s{*x.s};
            if (plain && *x.s >= 0)
            {
                for (auto const& v : n.ref) if (!v) return;
                out = lue::default_policies::accu(n.a, s);
            }
            else out = lue::value_policies::accu(n.a, s);
        }
        else
        {
            x.a = w.find<D>(op.arg(4));
            if (!x.a) return;
            if (plain)
            {
                for (auto const& v : n.ref) if (!v) return;
                for (auto const& v : x.a->ref) if (!v || *v < 0) return;
                out = lue::default_policies::accu(n.a, x.a->a);
            }
            else out = lue::value_policies::accu(n.a, x.a->a);
        }
        Ref<D> o, r;
        route(n, o, r,
            [&](std::size_t i, D in) -> Opt<std::pair<D, D>>
            {
                Opt<D> v = x.at(i);
                if (!v || *v < 0) return {};
                return std::pair<D, D>{in + *v, 0};
            });
        w.put<D>(op.arg(2), std::move(*out), std::move(o));
    }
}  // namespace fw
