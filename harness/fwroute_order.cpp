#include "fwroute.hpp"
#include "lue/framework/algorithm/definition/decreasing_order.hpp"
#include "lue/framework/algorithm/definition/first_n.hpp"
#include "lue/framework/algorithm/value_policies/decreasing_order.hpp"
#include "lue/framework/algorithm/value_policies/first_n.hpp"
#include "lue/framework/partitioned_route/serial_route_partition_impl.hpp"
#include "lue/framework/partitioned_route/server/serial_route_partition_impl.hpp"
#include <map>

namespace fw {
    namespace {
        // the first cells, in decreasing order, of each route
        template<typename V, typename R>
        void first(World& w, Op const& op, Arr<V>& v, Ref<R> const& zone, lue::SerialRoute<R, 2> const& route, Count length)
        {
            std::map<R, std::vector<std::pair<V, std::size_t>>> cells;
            for (std::size_t i = 0; i < w.n(); ++i)
                if (zone[i] && v.ref[i]) cells[*zone[i]].push_back({*v.ref[i], i});
            if (op.arg(7) & 1)
            {
                auto const& starts = route.starts().get();
                if (starts.size() != cells.size() && length > 0)
                    violate("route", "decreasing_order: " + std::to_string(starts.size()) + " routes instead of " + std::to_string(cells.size()));
                if (length > 0) for (auto const& [id, _] : starts) if (!cells.count(id)) violate("route", "decreasing_order: a route for zone " + std::to_string(id) + " without cells");
            }
            Count n = (Count)(op.arg(6) % 9 == 8 ? w.n() : op.arg(6) % 9 == 7 ? w.n() / 3 : op.arg(6) % 9);
            Array<B> out = lue::value_policies::first_n<B>(route, n);
            Ref<B> ref(w.n());
            bool ties = false;
            for (auto& [id, cs] : cells)
            {
                std::stable_sort(cs.begin(), cs.end(), [](auto const& a, auto const& b) { return a.first > b.first; });
                std::size_t m = std::min<std::size_t>({cs.size(), (std::size_t)n, (std::size_t)length});
                for (std::size_t i = 0; i < m; ++i) ref[cs[i].second] = 1;
                if (m > 0 && m < cs.size() && cs[m - 1].first == cs[m].first) ties = true;
            }
            if (!ties) { w.put<B>(op.arg(2), std::move(out), std::move(ref)); return; }
            sim::probe("route with ties");
            auto got = w.collect(out, "first_n");
            for (auto& [id, cs] : cells)
            {
                std::size_t m = std::min<std::size_t>({cs.size(), (std::size_t)n, (std::size_t)length}), marked = 0;
                for (auto const& [value, i] : cs)
                {
                    if (got[i] && *got[i] != 1) violate("cell", "first_n: a cell holds " + text(got[i]));
                    if (got[i]) ++marked;
                    if (m && value > cs[m - 1].first && !got[i]) violate("cell", "first_n: a cell of zone " + std::to_string(id) + " is skipped although it comes before others");
                    if (m && value < cs[m - 1].first && got[i]) violate("cell", "first_n: a cell of zone " + std::to_string(id) + " is visited before others");
                }
                if (marked != m) violate("cell", "first_n: " + std::to_string(marked) + " cells of zone " + std::to_string(id) + " instead of " + std::to_string(m));
            }
            for (std::size_t i = 0; i < w.n(); ++i) if (got[i] && !(zone[i] && v.ref[i])) violate("cell", "first_n: a cell outside of the routes is visited");
        }
        template<typename V>
        void order(World& w, Op const& op)
        {
            auto* v = w.find<V>(op.arg(4));
            if (!v) return;
            u64 l = op.arg(5) % 8;
            Count length = l < 5 ? std::numeric_limits<Count>::max() : l == 5 ? (Count)w.n() / 2 + 1 : l == 6 ? 3 : 1;
            if (op.arg(1) & 1)
            {
                auto route = lue::value_policies::decreasing_order<Z>(v->a, length);
                Ref<Z> zone(w.n(), Opt<Z>{0});
                // the identifier of the only route is not specified
                std::map<Z, int> ids;
                auto const& starts = route.starts().get();
                if (starts.size() == 1) for (auto& z : zone) z = starts.begin()->first;
                first<V, Z>(w, op, *v, zone, route, length);
            }
            else
            {
                auto* z = w.find<B>(op.arg(0));
                if (!z) return;
                auto route = lue::value_policies::decreasing_order(z->a, v->a, length);
                first<V, B>(w, op, *v, z->ref, route, length);
            }
        }
    }
    void op_order(World& w, Op const& op)   // zones, variant, destination, type, values, length, n, look
    {
        w.leaks_known = true;      // the partitions of a route refer to each other
        if (op.arg(3) & 1) order<I>(w, op);
        else order<D>(w, op);
    }
}  // namespace fw
