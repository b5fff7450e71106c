#pragma once
#include "fw.hpp"
#include "lue/framework/algorithm/kernel.hpp"
#include <map>
#include <set>

namespace fw {
    // 0/1 weights
    struct Window
    {
        Count radius = 1;
        std::vector<std::uint8_t> weights;
        Count size() const { return 2 * radius + 1; }
        bool at(Count r, Count c) const { return weights[(std::size_t)((r + radius) * size() + c + radius)]; }
        lue::Kernel<std::uint8_t, 2> kernel() const
        {
            lue::Kernel<std::uint8_t, 2> k{Shape{size(), size()}, (std::uint8_t)0};
            for (std::size_t i = 0; i < weights.size(); ++i) k[(Index)i] = weights[i];
            return k;
        }
    };
    Window window(u64 radius, u64 kind);

    // values within the window around a cell of the undivided array
    template<typename T, typename F>
    void visit(World const& w, Ref<T> const& ref, Window const& k, std::size_t cell, F f)
    {
        Count r0 = (Count)cell / w.w, c0 = (Count)cell % w.w;
        for (Count r = -k.radius; r <= k.radius; ++r)
            for (Count c = -k.radius; c <= k.radius; ++c)
            {
                if (!k.at(r, c)) continue;
                Count R = r0 + r, C = c0 + c;
                if (R < 0 || C < 0 || R >= w.h || C >= w.w) continue;
                auto const& v = ref[(std::size_t)(R * w.w + C)];
                if (v) f(*v, r, c);
            }
    }
    inline bool large_enough(World const& w, Count size) { return w.ph >= size && w.pw >= size; }
    // the operation must not return results: partitions are too small for the kernel
    template<typename T>
    void refused(World& w, Array<T> const& a, Count size, char const* what)
    {
        for (Count i = 0; i < w.nh(); ++i)
            for (Count j = 0; j < w.nw(); ++j)
            {
                Count nr = i == w.nh() - 1 ? w.h - i * w.ph : w.ph, nc = j == w.nw() - 1 ? w.w - j * w.pw : w.pw;
                auto& p = a.partitions()(i, j);
                bool threw = false;
                try { p.get(); }
                catch (sim::Violation const&) { throw; }
                catch (std::exception const&) { threw = true; sim::probe("partition too small for kernel"); }
                if (nr < size || nc < size)
                {
                    if (!threw) violate("kernel", std::string(what) + ": partition of " + std::to_string(nr) + "x" + std::to_string(nc) + " is used with kernel of size " + std::to_string(size));
                }
            }
    }
    template<typename T, typename F, typename G>
    void focal(World& w, u64 s, u64 d, Window const& k, char const* what, F f, G g)   // g: ref, cell -> value, tolerance
    {
        auto* a = w.find<T>(s);
        if (!a) return;
        using R = lue::ElementT<decltype(f(a->a))>;
        Array<R> out = f(a->a);
        if (!large_enough(w, k.size()))
        {
            refused(w, out, k.size(), what);
            return;
        }
        Ref<R> ref(w.n());
        std::vector<double> tol(w.n(), 0);
        bool exact = true;
        for (std::size_t i = 0; i < ref.size(); ++i)
        {
            std::tie(ref[i], tol[i]) = g(a->ref, i);
            if (tol[i] != 0) exact = false;
        }
        if (exact) tol.clear();
        w.put<R>(d, std::move(out), std::move(ref), std::move(tol));
    }
    void op_focal_int(World& w, Op const& op);
    void op_focal_float(World& w, Op const& op);
    void op_clump(World& w, Op const& op);
    void op_terrain(World& w, Op const& op);
}  // namespace fw
