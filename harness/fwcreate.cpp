// Arrays made from something else than cells: random fields, noise, numbered cells, coordinates, and arrays
// with one value per partition.
#include "fw.hpp"
#include "lue/framework/algorithm/definition/uniform.hpp"
#include "lue/framework/algorithm/definition/normal.hpp"
#include "lue/framework/algorithm/definition/open_simplex_noise.hpp"
#include "lue/framework/algorithm/value_policies/uniform.hpp"
#include "lue/framework/algorithm/value_policies/normal.hpp"
#include "lue/framework/algorithm/value_policies/open_simplex_noise.hpp"
#include "lue/framework/algorithm/range.hpp"
#include "lue/framework/algorithm/mesh_grid.hpp"
#include "lue/framework/algorithm/locality_id.hpp"
#include "lue/framework/algorithm/timestamp.hpp"
#include "lue/framework/algorithm/partition_count_unique.hpp"
#include <functional>
#include <map>
#include <set>

namespace fw {
    namespace vp = lue::value_policies;

    struct H: Base
    {
        using Base::Base;
        std::vector<std::function<void()>> pending;      // results still to be looked at

        std::vector<std::string> profiles() const override { return {"F07"}; }
        void generate(Rng& rng, Trace& t) override
        {
            generate_geometry(rng, t);
            for (u64 type = 0; type < 2; ++type) { auto o = new_op(rng, type); o.a[1] = 0; o.a[3] = rng.below(2); t.ops.push_back(o); }
            int n = (int)rng.range(2, 10);
            for (int i = 0; i < n; ++i)
            {
                u64 k = rng.below(100), s = rng.below(nr_slots), d = rng.below(nr_slots), v = rng.next() >> 20, u = rng.next() >> 20;
                if (k < 24) t.ops.push_back({"uniform", {rng.below(3), rng.below(8), s, v, u}});
                else if (k < 40) t.ops.push_back({"normal", {rng.below(8), s, v, u}});
                else if (k < 50) t.ops.push_back({"noise", {d, v, u, rng.below(40)}});
                else if (k < 62) t.ops.push_back({"range", {rng.below(3), d, v, u}});
                else if (k < 70) t.ops.push_back({"grid", {rng.below(2), s, d, v, u}});
                else if (k < 77) t.ops.push_back({"where", {rng.below(2), s, v}});
                else if (k < 82) t.ops.push_back({"when", {s, v}});
                else if (k < 88) t.ops.push_back({"count", {rng.below(2), s, v}});
                else if (k < 91) { auto o = new_op(rng, rng.below(2)); o.a[3] = rng.below(2); t.ops.push_back(o); }
                else if (k < 94) t.ops.push_back({"run", {rng.below(rng.chance(0.5) ? 20 : 500)}});
                else if (k < 96) t.ops.push_back({"look", {}});
                else if (k < 98) t.ops.push_back({"check", {rng.below(2), s}});
                else t.ops.push_back({"drop", {rng.below(2), s}});
            }
            generate_schedule(rng, t);
        }
        void look()
        {
            auto p = std::move(pending);
            pending.clear();
            for (auto& f : p) f();
        }
        void step(Run&, Op const& op) override
        {
            if (common_op(op)) return;
            if (op.kind == "uniform")
            {
                if (op.arg(0) % 3 == 0) op_uniform<I>(op);
                else if (op.arg(0) % 3 == 1) op_uniform<D>(op);
                else op_uniform<Z>(op);
            }
            else if (op.kind == "normal") op_normal(op);
            else if (op.kind == "noise") op_noise(op);
            else if (op.kind == "range")
            {
                if (op.arg(0) % 3 == 0) op_range<I>(op);
                else if (op.arg(0) % 3 == 1) op_range<D>(op);
                else op_range<Z>(op);
            }
            else if (op.kind == "grid") { if (op.arg(0) % 2) op_grid<I>(op); else op_grid<D>(op); }
            else if (op.kind == "where") { if (op.arg(0) % 2) op_where<I>(op); else op_where<D>(op); }
            else if (op.kind == "when") op_when(op);
            else if (op.kind == "count") op_count(op);
            else if (op.kind == "look") look();
        }
        void finish(Run& r) override
        {
            look();
            pending.clear();
            Base::finish(r);
        }

        template<typename A> static std::shared_ptr<A> keep(A&& a) { return std::make_shared<A>(std::move(a)); }
        // a value which may become available later
        template<typename T> hpx::shared_future<T> late(T value, u64 v)
        {
            if (v % 3 == 0) return hpx::make_ready_future<T>(value).share();
            auto pr = std::make_shared<hpx::promise<T>>();
            hpx::shared_future<T> f = pr->get_future().share();
            hpx::sim::after(v % 300, [pr, value]() mutable { pr->set_value(value); });
            return f;
        }
        template<typename T> lue::Scalar<T> scalar(T value, u64 v)
        {
            if (v % 4 == 0) return lue::Scalar<T>{value};
            return lue::Scalar<T>{late<T>(value, v)};
        }

        // ---------------------------------------------------------------- random fields
        template<typename T>
        void distinct(Array<T> const& a, std::string const& name)
        {
            // partitions are filled independently of each other
            std::map<std::pair<std::pair<Count, Count>, std::vector<T>>, Count> seen;
            Count i = 0;
            for (auto const& p : a.partitions())
            {
                Data<T> d = p.data(hpx::launch::sync);
                auto s = d.shape();
                if (s[0] * s[1] >= 2)
                {
                    auto [it, fresh] = seen.insert({{{s[0], s[1]}, std::vector<T>(d.begin(), d.end())}, i});
                    if (!fresh) violate("copies", name + ": partitions " + std::to_string(it->second) + " and " + std::to_string(i) + " contain the same random values");
                }
                ++i;
            }
        }
        struct Moments { double n = 0, mean = 0, sd = 0; };
        template<typename T>
        static Moments moments(Ref<T> const& r)
        {
            Moments m;
            for (auto const& v : r) if (v) { ++m.n; m.mean += (double)*v; }
            if (m.n) m.mean /= m.n;
            for (auto const& v : r) if (v) m.sd += ((double)*v - m.mean) * ((double)*v - m.mean);
            if (m.n > 1) m.sd = std::sqrt(m.sd / (m.n - 1));
            return m;
        }
        template<typename T>
        void none(Ref<T> const& r, std::string const& name)
        {
            for (auto const& v : r) if (v) violate("parameter", name + ": a parameter is no-data, a cell holds " + text(v));
        }
        template<typename T>
        Ref<T> cells(Array<T> const& a, std::string const& name, bool own_partitions)
        {
            w.any_partitions = own_partitions;
            auto r = w.collect(a, name.c_str());
            w.any_partitions = false;
            return r;
        }

        template<typename T>
        void check_uniform(Ref<T> const& r, T lo, T hi, std::string const& name)
        {
            double span = (double)hi - (double)lo;
            std::set<T> values;
            for (std::size_t k = 0; k < r.size(); ++k)
            {
                if (!r[k]) violate("random", name + ": cell " + std::to_string(k) + " holds no-data, parameters are " + text<T>(lo) + " and " + text<T>(hi));
                bool ok = *r[k] >= lo && *r[k] <= hi;
                if (!ok) violate("random", name + ": cell " + std::to_string(k) + " holds " + text(r[k]) + ", outside of " + text<T>(lo) + " to " + text<T>(hi));
                values.insert(*r[k]);
            }
            double n = (double)r.size();
            if (std::is_integral_v<T> && span < 20 && n > 0)
            {
                double kinds = span + 1;
                if (kinds * std::pow(1 - 1 / kinds, n) < 1e-13 && (double)values.size() != kinds)
                    violate("random", name + ": only " + std::to_string(values.size()) + " of the values from " + text<T>(lo) + " to " + text<T>(hi) + " occur in " + std::to_string(r.size()) + " cells");
            }
            if (n >= 60 && span > 0)
            {
                double kinds = std::is_integral_v<T> ? span + 1 : 0;
                double sd = std::is_integral_v<T> ? std::sqrt((kinds * kinds - 1) / 12) : span / std::sqrt(12.0);
                auto m = moments(r);
                double middle = (double)lo + span / 2;
                if (std::abs(m.mean - middle) > 8 * sd / std::sqrt(n))
                    violate("random", name + ": mean of " + std::to_string(r.size()) + " cells is " + std::to_string(m.mean) + " for values between " + text<T>(lo) + " and " + text<T>(hi));
            }
        }
        template<typename T>
        void op_uniform(Op const& op)   // type, form, slot, values, lateness
        {
            u64 form = op.arg(1) % 8, v = op.arg(3), u = op.arg(4);
            T lo, hi;
            static constexpr i64 spans[] = {0, 1, 2, 5, 100, 1000000, 1000000000};
            u64 si = v % 7;
            if constexpr (std::is_same_v<T, Z>) { lo = (Z)((v >> 8) % 1000); hi = si == 6 ? lo + (Z(1) << 62) : lo + (Z)spans[si]; }
            else if constexpr (std::is_same_v<T, I>) { lo = (I)((v >> 8) % 2001) - 1000; if (si == 6) lo = -2147483647, hi = 2147483647; else hi = lo + (I)spans[si]; }
            else { lo = (D)(i64)((v >> 8) % 2001) - 1000; hi = lo + (si == 1 ? 1e-3 : (D)spans[si]); }
            T const min = lo, max = hi;
            bool const wide = si >= 5;
            bool missing = v % 11 == 0 && (form < 2 || form >= 6);   // the forms which are given an array, or make a scalar
            if (missing) { if (v % 2) lo = no_data<T>(); else hi = no_data<T>(); }
            std::string name = "uniform (" + std::string(type_name<T>()) + ", form " + std::to_string(form) + ")";
            if (form >= 6)
            {
                lue::Scalar<T> s = form == 6 ? vp::uniform<T>(lo, hi) : vp::uniform<T>(scalar(lo, u), scalar(hi, u / 7));
                pending.push_back([=, this]
                {
                    Ref<T> r{value_of<T>(s.future().get())};
                    if (missing) none(r, name); else check_uniform(r, min, max, name);
                });
                return;
            }
            Array<T> a;
            if (form < 2)
            {
                auto from = [&](auto* in)
                {
                    if (!in) return false;
                    a = form == 0 ? vp::uniform<T>(in->a, lo, hi) : vp::uniform<T>(in->a, scalar(lo, u), scalar(hi, u / 7));
                    return true;
                };
                if (!(u % 2 ? from(w.find<I>(op.arg(2))) : from(w.find<D>(op.arg(2))))) return;
            }
            else if (form == 2) a = vp::uniform<T>(w.shape(), w.partition_shape(), lo, hi);
            else if (form == 3) a = vp::uniform<T>(w.shape(), w.partition_shape(), scalar(lo, u), scalar(hi, u / 7));
            else if (form == 4) a = vp::uniform<T>(w.shape(), lo, hi);
            else a = vp::uniform<T>(w.shape(), scalar(lo, u), scalar(hi, u / 7));
            pending.push_back([=, p = keep(std::move(a)), this]
            {
                auto r = cells(*p, name, form >= 4);
                if (missing) { none(r, name); return; }
                check_uniform(r, min, max, name);
                if (wide) distinct(*p, name);
            });
        }
        void check_normal(Ref<D> const& r, D mean, D stddev, std::string const& name)
        {
            for (std::size_t k = 0; k < r.size(); ++k)
            {
                if (!r[k]) violate("random", name + ": cell " + std::to_string(k) + " holds no-data");
                if (!(std::abs(*r[k] - mean) <= 12 * stddev)) violate("random", name + ": cell " + std::to_string(k) + " holds " + text(r[k]) + " for mean " + text<D>(mean) + " and standard deviation " + text<D>(stddev));
            }
            auto m = moments(r);
            if (m.n >= 20 && std::abs(m.mean - mean) > 8 * stddev / std::sqrt(m.n))
                violate("random", name + ": mean of " + std::to_string(r.size()) + " cells is " + text<D>(m.mean) + " instead of about " + text<D>(mean));
            if (m.n >= 120 && std::abs(m.sd / stddev - 1) > 8 / std::sqrt(2 * m.n))
                violate("random", name + ": standard deviation of " + std::to_string(r.size()) + " cells is " + text<D>(m.sd) + " instead of about " + text<D>(stddev));
        }
        void op_normal(Op const& op)   // form, slot, values, lateness
        {
            u64 form = op.arg(0) % 8, v = op.arg(2), u = op.arg(3);
            static constexpr D sds[] = {0.001, 0.5, 1, 3, 1000};
            D const mean = (D)((i64)(v % 4001) - 2000) * 0.25, stddev = sds[(v >> 16) % 5];
            D m = mean, sd = stddev;
            bool missing = (v >> 20) % 9 == 0 && (form < 2 || form >= 6);
            if (missing) { if (v % 2) m = no_data<D>(); else sd = no_data<D>(); }
            std::string name = "normal (form " + std::to_string(form) + ")";
            if (form >= 6)
            {
                lue::Scalar<D> s = form == 6 ? vp::normal<D>(m, sd) : vp::normal<D>(scalar(m, u), scalar(sd, u / 7));
                pending.push_back([=, this]
                {
                    Ref<D> r{value_of<D>(s.future().get())};
                    if (missing) none(r, name); else check_normal(r, mean, stddev, name);
                });
                return;
            }
            Array<D> a;
            if (form < 2)
            {
                auto from = [&](auto* in)
                {
                    if (!in) return false;
                    a = form == 0 ? vp::normal(in->a, m, sd) : vp::normal(in->a, scalar(m, u), scalar(sd, u / 7));
                    return true;
                };
                if (!(u % 2 ? from(w.find<I>(op.arg(1))) : from(w.find<D>(op.arg(1))))) return;
            }
            else if (form == 2) a = vp::normal<D>(w.shape(), w.partition_shape(), m, sd);
            else if (form == 3) a = vp::normal<D>(w.shape(), w.partition_shape(), scalar(m, u), scalar(sd, u / 7));
            else if (form == 4) a = vp::normal<D>(w.shape(), m, sd);
            else a = vp::normal<D>(w.shape(), scalar(m, u), scalar(sd, u / 7));
            pending.push_back([=, p = keep(std::move(a)), this]
            {
                auto r = cells(*p, name, form >= 4);
                if (missing) { none(r, name); return; }
                check_normal(r, mean, stddev, name);
                distinct(*p, name);
            });
        }

        // ---------------------------------------------------------------- cells which are known
        void op_noise(Op const& op)   // slot, coordinates, seed, percentage no-data
        {
            u64 v = op.arg(1), u = op.arg(2);
            u64 pct = op.arg(3) % 2 ? op.arg(3) % 40 : 0;
            auto xs = content<D>(w, v, v % 2 ? k_wide : k_small, pct), ys = content<D>(w, v + 1, v % 3 ? k_wide : k_small, pct);
            int seed = (int)(u % 100000) - 50000;
            FastNoiseLite noise{seed};
            noise.SetNoiseType(FastNoiseLite::NoiseType_OpenSimplex2);
            Ref<D> r(w.n());
            for (std::size_t i = 0; i < r.size(); ++i) if (xs[i] && ys[i]) r[i] = (D)noise.GetNoise(*xs[i], *ys[i]);
            auto x = w.make<D>(run->trace, xs, v / 3, v), y = w.make<D>(run->trace, ys, v / 17, v + 3);
            w.put<D>(op.arg(0), vp::open_simplex_noise(x, y, seed), std::move(r));
        }
        template<typename T>
        void op_range(Op const& op)   // type, slot, start, lateness
        {
            u64 v = op.arg(2), u = op.arg(3);
            T start = (T)(v % 5000);
            if constexpr (!std::is_same_v<T, Z>) if (v % 3 == 0) start = -start;
            auto ref = content<T>(w, v, k_small, 10);
            Array<T> a = w.make<T>(run->trace, ref, u, v);
            auto f = u % 2 ? lue::range(a, late<T>(start, u / 2)) : lue::range(a, start);
            for (std::size_t i = 0; i < ref.size(); ++i) ref[i] = (T)(start + (T)i);
            if (u % 5 < 2) progress(u % 37);
            f.get();
            w.put<T>(op.arg(1), std::move(a), std::move(ref));
        }
        template<typename T>
        void op_grid(Op const& op)   // type, slot, slot, values, lateness
        {
            u64 v = op.arg(3), u = op.arg(4);
            T first, step;
            if constexpr (std::is_same_v<T, D>) { first = (D)((i64)(v % 2001) - 1000) * 0.5; step = (D)((i64)((v >> 12) % 41) - 20) * 0.125; }
            else { first = (T)((i64)(v % 2001) - 1000); step = (T)((i64)((v >> 12) % 21) - 10); }
            Ref<T> rows(w.n()), cols(w.n());
            for (Count r = 0; r < w.h; ++r)
                for (Count c = 0; c < w.w; ++c)
                {
                    rows[(std::size_t)(r * w.w + c)] = (T)(first + (r * step));
                    cols[(std::size_t)(r * w.w + c)] = (T)(first + (c * step));
                }
            auto put = [&](auto* in)
            {
                if (!in) return;
                auto g = u % 3 == 0 ? lue::mesh_grid(in->a, first, step) : lue::mesh_grid(in->a, late<T>(first, u / 3), late<T>(step, u / 5));
                w.put<T>(op.arg(2), std::move(g[0]), std::move(rows));
                w.put<T>(op.arg(2) + 1, std::move(g[1]), std::move(cols));
            };
            if (u % 2) put(w.find<I>(op.arg(1))); else put(w.find<D>(op.arg(1)));
        }

        // ---------------------------------------------------------------- a value per partition
        template<typename T>
        Ref<T> per_partition(Array<T> const& a, std::string const& name)
        {
            if (a.shape()[0] != w.nh() || a.shape()[1] != w.nw()) violate("shape", name + ": shape of the result differs from the number of partitions");
            if (a.nr_partitions() != w.nh() * w.nw()) violate("partitions", name + ": number of partitions differs");
            Ref<T> r;
            Count i = 0;
            for (auto const& p : a.partitions())
            {
                p.wait();
                auto d = p.data(hpx::launch::sync);
                auto o = p.offset(hpx::launch::sync);
                if (d.shape()[0] != 1 || d.shape()[1] != 1) violate("shape", name + ": partition does not contain a single value");
                if ((Count)o[0] != i / w.nw() || (Count)o[1] != i % w.nw())
                    violate("offset", name + ": partition (" + std::to_string(i / w.nw()) + ", " + std::to_string(i % w.nw()) + ") of " + std::to_string(w.nh()) + "x" + std::to_string(w.nw()) + " has offset (" + std::to_string(o[0]) + ", " + std::to_string(o[1]) + ")");
                r.push_back(value_of<T>(d(0, 0)));
                ++i;
            }
            return r;
        }
        template<typename T>
        void op_where(Op const& op)
        {
            auto* in = w.find<T>(op.arg(1));
            if (!in) return;
            auto a = lue::locality_id(in->a);
            auto where = *w.localities(run->trace);
            pending.push_back([a = keep(std::move(a)), where, this]
            {
                auto r = per_partition(*a, "locality_id");
                for (std::size_t i = 0; i < r.size(); ++i)
                {
                    auto l = hpx::naming::get_locality_id_from_id(where[(Count)i]);
                    if (!r[i] || *r[i] != l) violate("value", "locality_id: partition " + std::to_string(i) + " is said to be at " + text(r[i]) + " instead of at " + std::to_string(l));
                }
            });
        }
        static lue::ClockTick now() { return std::chrono::high_resolution_clock{}.now().time_since_epoch().count(); }
        void op_when(Op const& op)
        {
            auto* in = w.find<I>(op.arg(0));
            if (!in) return;
            auto before = now();
            auto a = lue::timestamp(in->a);
            pending.push_back([a = keep(std::move(a)), before, this]
            {
                auto r = per_partition(*a, "timestamp");
                auto after = now();
                for (auto const& t : r)
                    if (!t || *t < before || *t > after) violate("value", "timestamp: " + text(t) + " is not between " + std::to_string(before) + " and " + std::to_string(after));
            });
        }
        void op_count(Op const& op)   // policies, slot
        {
            auto* in = w.find<I>(op.arg(1));
            if (!in) return;
            bool values = op.arg(0) % 2;
            Ref<I> want;
            for (Count pi = 0; pi < w.nh(); ++pi)
                for (Count pj = 0; pj < w.nw(); ++pj)
                {
                    std::set<I> s;
                    auto d = w.cut(in->ref, pi, pj);
                    for (I x : d) if (!values || x != no_data<I>()) s.insert(x);
                    want.push_back(s.empty() ? Opt<I>{} : Opt<I>{(I)s.size()});
                }
            Array<I> a = values
                ? lue::partition_count_unique<lue::policy::partition_count_unique::DefaultValuePolicies<I, I>, I, I>({}, in->a)
                : lue::partition_count_unique<I, I>(in->a);
            pending.push_back([a = keep(std::move(a)), want, this]
            {
                auto r = per_partition(*a, "partition_count_unique");
                for (std::size_t i = 0; i < r.size(); ++i)
                    if (r[i] != want[i]) violate("value", "partition_count_unique: " + text(r[i]) + " instead of " + text(want[i]) + " values in partition " + std::to_string(i));
            });
        }
    };
}  // namespace fw

int main(int argc, char** argv)
{
    return sim::main_(argc, argv, [](std::string const& p) { return new fw::H(p); });
}
