#include "fwlocal.hpp"
#include "lue/framework/algorithm/all.hpp"
#include "lue/framework/algorithm/fill.hpp"
#include "lue/framework/algorithm/copy.hpp"
#include "lue/framework/algorithm/array_partition_id.hpp"
#include "lue/framework/algorithm/definition/sum.hpp"
#include "lue/framework/algorithm/definition/minimum.hpp"
#include "lue/framework/algorithm/definition/maximum.hpp"
#include "lue/framework/algorithm/definition/unique.hpp"
#include "lue/framework/algorithm/definition/unique_id.hpp"
#include "lue/framework/algorithm/definition/cell_index.hpp"
#include "lue/framework/algorithm/definition/reclassify.hpp"
#include "lue/framework/algorithm/definition/zonal_operation.hpp"
#include "lue/framework/algorithm/definition/zonal_sum.hpp"
#include "lue/framework/algorithm/definition/zonal_area.hpp"
#include "lue/framework/algorithm/definition/zonal_diversity.hpp"
#include "lue/framework/algorithm/definition/zonal_majority.hpp"
#include "lue/framework/algorithm/definition/zonal_maximum.hpp"
#include "lue/framework/algorithm/definition/zonal_mean.hpp"
#include "lue/framework/algorithm/definition/zonal_minimum.hpp"
#include "lue/framework/algorithm/definition/zonal_normal.hpp"
#include "lue/framework/algorithm/definition/zonal_uniform.hpp"
#include "lue/framework/algorithm/value_policies/all.hpp"
#include "lue/framework/algorithm/value_policies/none.hpp"
#include "lue/framework/algorithm/value_policies/sum.hpp"
#include "lue/framework/algorithm/value_policies/minimum.hpp"
#include "lue/framework/algorithm/value_policies/maximum.hpp"
#include "lue/framework/algorithm/value_policies/unique.hpp"
#include "lue/framework/algorithm/value_policies/unique_id.hpp"
#include "lue/framework/algorithm/value_policies/cell_index.hpp"
#include "lue/framework/algorithm/value_policies/reclassify.hpp"
#include "lue/framework/algorithm/value_policies/zonal_sum.hpp"
#include "lue/framework/algorithm/value_policies/zonal_area.hpp"
#include "lue/framework/algorithm/value_policies/zonal_diversity.hpp"
#include "lue/framework/algorithm/value_policies/zonal_majority.hpp"
#include "lue/framework/algorithm/value_policies/zonal_maximum.hpp"
#include "lue/framework/algorithm/value_policies/zonal_mean.hpp"
#include "lue/framework/algorithm/value_policies/zonal_minimum.hpp"
#include "lue/framework/algorithm/value_policies/zonal_normal.hpp"
#include "lue/framework/algorithm/value_policies/zonal_uniform.hpp"

namespace fw {
    namespace vp = lue::value_policies;
    namespace {
        template<typename T> double magnitude(Ref<T> const& r)
        {
            double m = 0;
            for (auto const& v : r) if (v) m += std::abs((double)*v);
            return m;
        }
        template<typename T> bool summable(Ref<T> const& r) { return magnitude(r) < (std::is_integral_v<T> ? 2e9 : 1e300); }
        template<typename T> double slack(Ref<T> const& r) { return std::is_integral_v<T> ? 0 : magnitude(r) * 1e-13; }
        template<typename T, typename G> Opt<T> fold(Ref<T> const& r, G g)
        {
            Opt<T> out;
            for (auto const& v : r) if (v) out = out ? g(*out, *v) : *v;
            return out;
        }
        template<typename T>
        void aggregate(World& w, u64 what, u64 s, u64 d)
        {
            auto* a = w.find<T>(s);
            if (!a) return;
            if (what == 0)
            {
                if (!summable(a->ref)) return;
                w.put<T>(d, vp::sum(a->a), fold(a->ref, [](T x, T y) { return (T)(x + y); }), slack(a->ref));
            }
            else if (what == 1) w.put<T>(d, vp::minimum(a->a), fold(a->ref, [](T x, T y) { return std::min(x, y); }));
            else w.put<T>(d, vp::maximum(a->a), fold(a->ref, [](T x, T y) { return std::max(x, y); }));
        }
    }
    void op_aggregate(World& w, Op const& op)
    {
        u64 s = op.arg(1), d = op.arg(2), k = op.arg(0) % 8;
        if (k < 3) aggregate<I>(w, k, s, d);
        else if (k < 6) aggregate<D>(w, k - 3, s, d);
        else
        {
            auto* a = w.find<B>(s);
            if (!a) return;
            bool any_valid = false, all = true, none = true;
            for (auto const& v : a->ref) if (v) { any_valid = true; if (*v) none = false; else all = false; }
            // a truth value, whatever its representation
            auto truth = [](lue::Scalar<B> sc) { return lue::Scalar<B>{sc.future().then([](hpx::shared_future<B> const& f) { B v = f.get(); return v == no_data<B>() ? v : B(v != 0); })}; };
            if (k == 6) w.put<B>(d, truth(vp::all(a->a)), any_valid ? Opt<B>{(B)all} : Opt<B>{});
            else w.put<B>(d, truth(vp::none(a->a)), any_valid ? Opt<B>{(B)none} : Opt<B>{});
        }
    }
    namespace {
        // per zone the values in it
        template<typename T> std::map<Z, std::vector<T>> per_zone(Ref<T> const& v, Ref<Z> const& z)
        {
            std::map<Z, std::vector<T>> m;
            for (std::size_t i = 0; i < z.size(); ++i) if (z[i] && v[i]) m[*z[i]].push_back(*v[i]);
            return m;
        }
        template<typename T, typename R, typename F, typename G>
        void zonal(World& w, u64 s, u64 z, u64 d, F f, G g, double tol = 0)
        {
            auto* a = w.find<T>(s);
            auto* zones = w.find<Z>(z);
            if (!a || !zones) return;
            auto m = per_zone(a->ref, zones->ref);
            std::map<Z, R> stat;
            for (auto& [k, vs] : m) stat[k] = g(vs);
            Ref<R> r(w.n());
            for (std::size_t i = 0; i < r.size(); ++i)
                if (zones->ref[i] && stat.count(*zones->ref[i])) r[i] = stat[*zones->ref[i]];
            std::vector<double> t;
            if (tol > 0) t.assign(w.n(), tol);
            w.put<R>(d, f(a->a, zones->a), std::move(r), std::move(t));
        }
        template<typename T> T most(std::vector<T> const& vs)
        {
            std::map<T, int> c;
            for (T v : vs) ++c[v];
            T best{};
            int n = 0;
            for (auto& [v, k] : c) if (k >= n) { best = v; n = k; }   // ties: the largest value
            return best;
        }
        // a random number per zone, the same in all its cells
        template<typename F>
        void random_zones(World& w, u64 z, u64 d, char const* what, F f)
        {
            auto* zones = w.find<Z>(z);
            if (!zones) return;
            Array<D> a = f(zones->a);
            auto got = w.collect(a, what);
            std::map<Z, D> seen;
            for (std::size_t i = 0; i < got.size(); ++i)
            {
                if (bool(got[i]) != bool(zones->ref[i])) violate("cell", std::string(what) + ": cell " + std::to_string(i) + " holds " + text(got[i]) + ", its zone is " + text(zones->ref[i]));
                if (!got[i]) continue;
                auto [it, fresh] = seen.try_emplace(*zones->ref[i], *got[i]);
                if (!fresh && it->second != *got[i]) violate("cell", std::string(what) + ": zone " + text(zones->ref[i]) + " got both " + text(Opt<D>{it->second}) + " and " + text(got[i]));
                if (what[6] == 'u' && (*got[i] < 0 || *got[i] > 1)) violate("cell", std::string(what) + ": " + text(got[i]));
            }
            w.put<D>(d, std::move(a), std::move(got));
        }
    }
    void op_zonal(World& w, Op const& op)
    {
        u64 s = op.arg(1), z = op.arg(2), d = op.arg(3);
        auto sum = [](auto const& vs) { auto t = vs[0]; for (std::size_t i = 1; i < vs.size(); ++i) t += vs[i]; return t; };
        auto mn = [](auto const& vs) { return *std::min_element(vs.begin(), vs.end()); };
        auto mx = [](auto const& vs) { return *std::max_element(vs.begin(), vs.end()); };
        switch (op.arg(0) % 12)
        {
            case 0: { auto* a = w.find<I>(s); if (a && summable(a->ref)) zonal<I, I>(w, s, z, d, [](auto const& a, auto const& z) { return vp::zonal_sum(a, z); }, sum); break; }
            case 1: { auto* a = w.find<D>(s); if (a && summable(a->ref)) zonal<D, D>(w, s, z, d, [](auto const& a, auto const& z) { return vp::zonal_sum(a, z); }, sum, slack(a->ref)); break; }
            case 2: zonal<I, I>(w, s, z, d, [](auto const& a, auto const& z) { return vp::zonal_minimum(a, z); }, mn); break;
            case 3: zonal<D, D>(w, s, z, d, [](auto const& a, auto const& z) { return vp::zonal_minimum(a, z); }, mn); break;
            case 4: zonal<I, I>(w, s, z, d, [](auto const& a, auto const& z) { return vp::zonal_maximum(a, z); }, mx); break;
            case 5: zonal<D, D>(w, s, z, d, [](auto const& a, auto const& z) { return vp::zonal_maximum(a, z); }, mx); break;
            case 6: { auto* a = w.find<D>(s); if (a && summable(a->ref)) zonal<D, D>(w, s, z, d, [](auto const& a, auto const& z) { return vp::zonal_mean(a, z); }, [&](auto const& vs) { return sum(vs) / (D)vs.size(); }, slack(a->ref)); break; }
            case 7: zonal<I, Z>(w, s, z, d, [](auto const& a, auto const& z) { return vp::zonal_diversity<Z>(a, z); }, [](auto const& vs) { return (Z)std::set<I>(vs.begin(), vs.end()).size(); }); break;
            case 8: zonal<I, I>(w, s, z, d, [](auto const& a, auto const& z) { return vp::zonal_majority(a, z); }, [](auto const& vs) { return most(vs); }); break;
            case 9:
            {
                auto* zones = w.find<Z>(z);
                if (!zones) return;
                std::map<Z, Z> n;
                for (auto const& v : zones->ref) if (v) ++n[*v];
                Ref<Z> r(w.n());
                for (std::size_t i = 0; i < r.size(); ++i) if (zones->ref[i]) r[i] = n[*zones->ref[i]];
                w.put<Z>(d, vp::zonal_area<Z>(zones->a), std::move(r));
                break;
            }
            case 10: random_zones(w, z, d, "zonal_normal", [](auto const& z) { return vp::zonal_normal<D>(z); }); break;
            case 11: random_zones(w, z, d, "zonal_uniform", [](auto const& z) { return vp::zonal_uniform<D>(z); }); break;
        }
    }
    void op_misc(World& w, Op const& op, Trace const& t)
    {
        u64 s = op.arg(1), d = op.arg(2), v = op.arg(3);
        switch (op.arg(0) % 9)
        {
            case 0:
            {
                auto* a = w.find<I>(s);
                if (!a) return;
                std::set<I> expected;
                for (auto const& x : a->ref) if (x) expected.insert(*x);
                if (vp::unique(a->a).get() != expected) violate("unique", "set of unique values differs");
                break;
            }
            case 1:
            {
                auto* a = w.find<B>(s);
                if (!a) return;
                Array<Z> out = vp::unique_id<Z>(a->a);
                auto got = w.collect(out, "unique_id");
                std::set<Z> ids;
                bool all = true;
                for (std::size_t i = 0; i < got.size(); ++i)
                {
                    bool ok = bool(got[i]) == bool(a->ref[i]);
                    if (ok && got[i]) ok = *a->ref[i] ? *got[i] > 0 && ids.insert(*got[i]).second : *got[i] == 0;
                    if (!ok) violate("cell", "unique_id: cell " + std::to_string(i) + " holds " + text(got[i]) + ", condition is " + text(a->ref[i]));
                    if (!a->ref[i] || !*a->ref[i]) all = false;
                }
                if (all && (*ids.begin() != 1 || *ids.rbegin() != ids.size())) violate("cell", "unique_id: ids of an array without no-data and false cells are not contiguous");
                w.put<Z>(d, std::move(out), std::move(got));
                break;
            }
            case 2:
            {
                auto* a = w.find<B>(s);
                if (!a) return;
                u64 dim = v % 2;
                Ref<I> r(w.n());
                for (std::size_t i = 0; i < r.size(); ++i)
                    if (a->ref[i] && *a->ref[i]) r[i] = (I)(dim == 0 ? (Count)i / w.w : (Count)i % w.w);
                w.put<I>(d, vp::cell_index<I>(a->a, (Index)dim), std::move(r));
                break;
            }
            case 3:
            {
                auto* a = w.find<I>(s);
                if (!a) return;
                lue::LookupTable<I, D> table;
                for (u64 i = 0; i < v % 12; ++i) table[(I)(sim::mix(v, i) % 11) - 5] = (D)i * 1.5;
                Ref<D> r(w.n());
                for (std::size_t i = 0; i < r.size(); ++i)
                    if (a->ref[i]) { auto it = table.find(*a->ref[i]); if (it != table.end()) r[i] = it->second; }
                if (v & 4096) w.put<D>(d, vp::reclassify(a->a, table), std::move(r));
                else
                {
                    // the table becomes available later
                    auto pr = std::make_shared<hpx::promise<lue::LookupTable<I, D>>>();
                    hpx::shared_future<lue::LookupTable<I, D>> f = pr->get_future().share();
                    hpx::sim::after(v % 300, [pr, table]() mutable { pr->set_value(table); });
                    w.put<D>(d, vp::reclassify(a->a, f), std::move(r));
                }
                break;
            }
            case 4:
            {
                auto* a = w.find<D>(s);
                if (!a) return;
                Ref<Z> r(w.n());
                for (std::size_t i = 0; i < r.size(); ++i) r[i] = (Z)(w.pi((Count)i / w.w) * w.nw() + w.pj((Count)i % w.w));
                w.put<Z>(d, lue::array_partition_id<Z>(a->a), std::move(r));
                break;
            }
            case 5: break;
            case 6:
            {
                // fill in place. Nothing must be using the partitions: they are shared
                auto& sl = w.slots<I>()[s % nr_slots];
                if (!sl) return;
                Ref<I> ref = content<I>(w, v, k_small, 10);
                Array<I> a = w.make<I>(t, ref, 3, v);
                I value = scalar_value<I>(v);
                auto f = lue::fill(a, value);
                for (auto& x : ref) x = value_of<I>(value);
                f.get();
                w.put<I>(d, std::move(a), std::move(ref));
                break;
            }
            case 7:
            {
                auto* a = w.find<D>(s);
                if (!a) return;
                auto ref = a->ref;
                w.put<D>(d, lue::copy(lue::policy::copy::DefaultValuePolicies<D>{}, a->a), std::move(ref));
                break;
            }
            case 8:
            {
                // as above, late scalars
                auto pr = std::make_shared<hpx::promise<I>>();
                I value = scalar_value<I>(v);
                lue::Scalar<I> sc{pr->get_future().share()};
                hpx::sim::after(v % 300, [pr, value]() mutable { pr->set_value(value); });
                if (t.c("dist") == 0 && v & 512)
                    w.put<I>(d, lue::create_partitioned_array(w.shape(), w.partition_shape(), sc), Ref<I>(w.n(), value_of<I>(value)));
                w.put<I>(d, sc, value_of<I>(value));
                break;
            }
        }
    }
}  // namespace fw
