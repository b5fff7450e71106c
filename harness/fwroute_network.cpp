#include "fwroute.hpp"
#include "lue/framework/algorithm/serialize/kernel.hpp"
#include "lue/framework/algorithm/definition/inflow_count.hpp"
#include "lue/framework/algorithm/definition/downstream_distance.hpp"
#include "lue/framework/algorithm/definition/upstream.hpp"
#include "lue/framework/algorithm/definition/downstream.hpp"
#include "lue/framework/algorithm/definition/accu_info.hpp"
#include "lue/framework/algorithm/value_policies/upstream.hpp"
#include "lue/framework/algorithm/value_policies/downstream.hpp"
#include "lue/framework/algorithm/value_policies/accu_info.hpp"

namespace fw {
    namespace {
        template<typename T>
        void count(World& w, Net& n, u64 d)
        {
            Array<T> out = lue::inflow_count<T>(lue::policy::inflow_count::DefaultValuePolicies<T, B>{}, n.a);
            Ref<T> ref(w.n());
            for (std::size_t i = 0; i < w.n(); ++i) if (n.ref[i]) ref[i] = 0;
            for (std::size_t i = 0; i < w.n(); ++i) if (n.down[i] >= 0 && ref[(std::size_t)n.down[i]]) ++*ref[(std::size_t)n.down[i]];
            w.put<T>(d, std::move(out), std::move(ref));
        }
        template<typename T>
        void stream(World& w, Net& n, u64 d, u64 s, bool up)
        {
            auto* a = w.find<T>(s);
            if (!a || w.ph < 3 || w.pw < 3) return;
            for (auto const& v : a->ref) if (v && std::abs((double)*v) > 1e6) return;
            Array<T> out = up ? lue::value_policies::upstream(n.a, a->a) : lue::value_policies::downstream(n.a, a->a);
            Ref<T> ref(w.n());
            std::vector<char> bad(w.n(), 0);
            for (std::size_t i = 0; i < w.n(); ++i)
            {
                if (!n.ref[i] || !a->ref[i]) bad[i] = 1;
                if (up)
                {
                    if (!ref[i]) ref[i] = T{0};
                    if (n.ref[i] && n.down[i] >= 0)
                    {
                        auto to = (std::size_t)n.down[i];
                        if (!a->ref[i]) bad[to] = 1;
                        else ref[to] = ref[to].value_or(T{0}) + *a->ref[i];
                    }
                }
                else if (!bad[i])
                {
                    if (*n.ref[i] == 5) ref[i] = a->ref[i];
                    else if (n.down[i] >= 0) ref[i] = a->ref[(std::size_t)n.down[i]];
                    else ref[i] = T{0};     // there is nothing outside of the array
                }
            }
            if (up) for (std::size_t i = 0; i < w.n(); ++i) if (bad[i]) ref[i].reset();
            w.put<T>(d, std::move(out), std::move(ref));
        }
    }
    void op_network(World& w, Net& n, Op const& op)   // net, what, destination, -, source
    {
        u64 d = op.arg(2), s = op.arg(4);
        switch (op.arg(1) % 8)
        {
            case 0: count<B>(w, n, d); break;
            case 1: count<I>(w, n, d); break;
            case 2:
            {
                D size = 0.5 + (D)(s % 5);
                Array<D> out = lue::downstream_distance(lue::policy::downstream_distance::DefaultValuePolicies<B, D>{}, n.a, size);
                Ref<D> ref(w.n());
                for (std::size_t i = 0; i < w.n(); ++i)
                    if (n.ref[i]) ref[i] = *n.ref[i] == 5 ? 0.0 : *n.ref[i] % 2 ? std::sqrt(2.0) * size : size;
                w.put<D>(d, std::move(out), std::move(ref), std::vector<double>(w.n(), 1e-9));
                break;
            }
            case 3: stream<I>(w, n, d, s, true); break;
            case 4: stream<D>(w, n, d, s, true); break;
            case 5: stream<I>(w, n, d, s, false); break;
            case 6: stream<D>(w, n, d, s, false); break;
            case 7:
            {
                // class per cell, which depends on the partitions
                Array<B> out = lue::value_policies::accu_info(n.a);
                Ref<B> got = w.collect(out, "accu_info");
                std::vector<int> ups(w.n(), 0);
                for (std::size_t i = 0; i < w.n(); ++i) if (n.down[i] >= 0) ++ups[(std::size_t)n.down[i]];
                for (std::size_t i = 0; i < w.n(); ++i)
                {
                    bool known = got[i] && *got[i] >= 11 && *got[i] <= 18;
                    if (n.ref[i] ? !known : bool(got[i]))
                        violate("cell", "accu_info: class " + text(got[i]) + " for cell (" + std::to_string((Count)i / w.w) + ", " + std::to_string((Count)i % w.w) + ") with flow direction " + text(n.ref[i]));
                    if (n.ref[i] && *got[i] == 11 && ups[i])
                        violate("cell", "accu_info: cell (" + std::to_string((Count)i / w.w) + ", " + std::to_string((Count)i % w.w) + ") with " + std::to_string(ups[i]) + " upstream cells is classified as ridge");
                }
                break;
            }
        }
    }
}  // namespace fw
