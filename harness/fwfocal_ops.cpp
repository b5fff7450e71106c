#include "fwfocal.hpp"
#include "lue/framework/algorithm/serialize/kernel.hpp"
#include "lue/framework/algorithm/definition/focal_sum.hpp"
#include "lue/framework/algorithm/definition/focal_maximum.hpp"
#include "lue/framework/algorithm/definition/focal_minimum.hpp"
#include "lue/framework/algorithm/definition/focal_majority.hpp"
#include "lue/framework/algorithm/definition/focal_diversity.hpp"
#include "lue/framework/algorithm/definition/focal_mean.hpp"
#include "lue/framework/algorithm/definition/focal_high_pass.hpp"
#include "lue/framework/algorithm/definition/convolve.hpp"
#include "lue/framework/algorithm/value_policies/focal_sum.hpp"
#include "lue/framework/algorithm/value_policies/focal_maximum.hpp"
#include "lue/framework/algorithm/value_policies/focal_minimum.hpp"
#include "lue/framework/algorithm/value_policies/focal_majority.hpp"
#include "lue/framework/algorithm/value_policies/focal_diversity.hpp"
#include "lue/framework/algorithm/value_policies/focal_mean.hpp"
#include "lue/framework/algorithm/value_policies/focal_high_pass.hpp"
#include "lue/framework/algorithm/value_policies/convolve.hpp"

namespace fw {
    namespace vp = lue::value_policies;
    namespace {
        template<typename T> using Result = std::pair<Opt<T>, double>;
        template<typename T>
        void extremes(World& w, u64 which, u64 s, u64 d, Window const& k)
        {
            auto extreme = [&](Ref<T> const& ref, std::size_t i, bool max) -> Result<T>
            {
                Opt<T> r;
                visit(w, ref, k, i, [&](T v, Count, Count) { if (!r || (max ? v > *r : v < *r)) r = v; });
                return {r, 0};
            };
            if (which == 0) focal<T>(w, s, d, k, "focal_maximum", [&](auto const& a) { return vp::focal_maximum(a, k.kernel()); }, [&](auto const& ref, std::size_t i) { return extreme(ref, i, true); });
            else focal<T>(w, s, d, k, "focal_minimum", [&](auto const& a) { return vp::focal_minimum(a, k.kernel()); }, [&](auto const& ref, std::size_t i) { return extreme(ref, i, false); });
        }
        double magnitude(World const& w, Ref<D> const& ref, Window const& k, std::size_t i)
        {
            double m = 0;
            visit(w, ref, k, i, [&](D v, Count, Count) { m += std::abs(v); });
            return m;
        }
        // sums of small multiples of a power of two are exact, in each order
        double tolerance(double m, double factor) { return m < 1e6 && factor == 0 ? 0 : m * 1e-9 + 1e-12; }
        bool tame(Ref<D> const& ref)
        {
            for (auto const& v : ref) if (v && (std::abs(*v) > 1e6 || std::abs(std::remainder(*v, 0.0625)) != 0)) return false;
            return true;
        }
    }
    Window window(u64 radius, u64 kind)
    {
        Window k;
        k.radius = (Count)radius;
        auto n = (std::size_t)(k.size() * k.size());
        if (kind % 4 == 0)
        {
            auto b = lue::box_kernel<std::uint8_t, 2>(k.radius, 1);
            k.weights.assign(b.begin(), b.end());
            for (auto v : k.weights) if (!v) violate("kernel", "box kernel has a zero");
        }
        else if (kind % 4 == 1)
        {
            auto b = lue::circle_kernel<std::uint8_t, 2>(k.radius, 1);
            for (Count r = -k.radius; r <= k.radius; ++r)
                for (Count c = -k.radius; c <= k.radius; ++c) k.weights.push_back(r * r + c * c <= k.radius * k.radius);
            if (!std::equal(k.weights.begin(), k.weights.end(), b.begin())) violate("kernel", "circle kernel differs");
        }
        else for (std::size_t i = 0; i < n; ++i) k.weights.push_back(sim::mix(kind, i) % 3 != 0);
        return k;
    }
    void op_focal_int(World& w, Op const& op)
    {
        Window k = window(op.arg(1) % 4, op.arg(2));
        u64 s = op.arg(3), d = op.arg(4);
        switch (op.arg(0) % 6)
        {
            case 0: case 1: extremes<I>(w, op.arg(0) % 6, s, d, k); break;
            case 2:
            {
                auto* a = w.find<I>(s);
                if (!a) return;
                for (auto const& v : a->ref) if (v && std::abs((double)*v) > 1e7) return;    // the sum must fit
                focal<I>(w, s, d, k, "focal_sum", [&](auto const& a) { return vp::focal_sum(a, k.kernel()); },
                    [&](auto const& ref, std::size_t i) -> Result<I>
                    {
                        Opt<I> r;
                        visit(w, ref, k, i, [&](I v, Count, Count) { r = r.value_or(0) + v; });
                        return {r, 0};
                    });
                break;
            }
            case 3:
                focal<I>(w, s, d, k, "focal_majority", [&](auto const& a) { return vp::focal_majority(a, k.kernel()); },
                    [&](auto const& ref, std::size_t i) -> Result<I>
                    {
                        std::map<I, int> f;
                        visit(w, ref, k, i, [&](I v, Count, Count) { ++f[v]; });
                        Opt<I> r;
                        int best = 0;
                        for (auto [v, n] : f) if (n > best) { best = n; r = v; }
                        return {r, 0};
                    });
                break;
            case 4:
                focal<I>(w, s, d, k, "focal_diversity", [&](auto const& a) { return vp::focal_diversity<Z>(a, k.kernel()); },
                    [&](auto const& ref, std::size_t i) -> Result<Z>
                    {
                        std::set<I> f;
                        visit(w, ref, k, i, [&](I v, Count, Count) { f.insert(v); });
                        return {f.empty() ? Opt<Z>{} : Opt<Z>{f.size()}, 0};
                    });
                break;
            case 5:
                focal<B>(w, s, d, k, "focal_majority", [&](auto const& a) { return vp::focal_majority(a, k.kernel()); },
                    [&](auto const& ref, std::size_t i) -> Result<B>
                    {
                        std::map<B, int> f;
                        visit(w, ref, k, i, [&](B v, Count, Count) { ++f[v]; });
                        Opt<B> r;
                        int best = 0;
                        for (auto [v, n] : f) if (n > best) { best = n; r = v; }
                        return {r, 0};
                    });
                break;
        }
    }
    void op_focal_float(World& w, Op const& op)
    {
        Window k = window(op.arg(1) % 4, op.arg(2));
        u64 s = op.arg(3), d = op.arg(4), v = op.arg(5);
        u64 which = op.arg(0) % 6;
        auto* a = w.find<D>(s);
        if (!a) return;
        if (which >= 2) for (auto const& v : a->ref) if (v && std::abs(*v) > 1e100) return;
        double const inexact = tame(a->ref) ? 0 : 1;
        switch (which)
        {
            case 0: case 1: extremes<D>(w, which, s, d, k); break;
            case 2:
                focal<D>(w, s, d, k, "focal_sum", [&](auto const& a) { return vp::focal_sum(a, k.kernel()); },
                    [&](auto const& ref, std::size_t i) -> Result<D>
                    {
                        Opt<D> r;
                        visit(w, ref, k, i, [&](D v, Count, Count) { r = r.value_or(0) + v; });
                        return {r, tolerance(magnitude(w, ref, k, i), inexact)};
                    });
                break;
            case 3:
                focal<D>(w, s, d, k, "focal_mean", [&](auto const& a) { return vp::focal_mean(a, k.kernel()); },
                    [&](auto const& ref, std::size_t i) -> Result<D>
                    {
                        Opt<D> r;
                        int n = 0;
                        visit(w, ref, k, i, [&](D v, Count, Count) { r = r.value_or(0) + v; ++n; });
                        if (r) *r /= n;
                        return {r, tolerance(magnitude(w, ref, k, i), 1)};
                    });
                break;
            case 4:
                focal<D>(w, s, d, k, "focal_high_pass", [&](auto const& a) { return vp::focal_high_pass(a, k.kernel()); },
                    [&](auto const& ref, std::size_t i) -> Result<D>
                    {
                        D sum = 0;
                        int n = 0;
                        visit(w, ref, k, i, [&](D v, Count r, Count c) { if (r || c) { sum += v; ++n; } });
                        if (!n || !ref[i]) return {Opt<D>{}, 0};
                        return {Opt<D>{2 * *ref[i] * n - sum}, tolerance(magnitude(w, ref, k, i) + 2 * n * std::abs(*ref[i]), inexact)};
                    });
                break;
            case 5:
            {
                Window all = window((u64)k.radius, 0);
                lue::Kernel<D, 2> kernel{Shape{k.size(), k.size()}, 0.0};
                std::vector<D> weights;
                for (std::size_t i = 0; i < k.weights.size(); ++i) weights.push_back(k.weights[i] ? (D)((i64)(sim::mix(v, i) % 9) - 4) * 0.5 : 0.0);
                for (std::size_t i = 0; i < weights.size(); ++i) kernel[(Index)i] = weights[i];
                focal<D>(w, s, d, all, "convolve", [&](auto const& a) { return vp::convolve(a, kernel); },
                    [&](auto const& ref, std::size_t i) -> Result<D>
                    {
                        Opt<D> r;
                        visit(w, ref, all, i, [&](D v, Count y, Count x) { r = r.value_or(0) + v * weights[(std::size_t)((y + all.radius) * all.size() + x + all.radius)]; });
                        return {r, tolerance(4 * magnitude(w, ref, all, i), inexact)};
                    });
                break;
            }
        }
    }
}  // namespace fw
