#pragma once
#include "fw.hpp"

namespace fw {
    void op_binary(World& w, Op const& op);
    void op_compare(World& w, Op const& op);
    void op_logic(World& w, Op const& op);
    void op_where(World& w, Op const& op);
    void op_unary(World& w, Op const& op);
    void op_cast(World& w, Op const& op);
    void op_aggregate(World& w, Op const& op);
    void op_zonal(World& w, Op const& op);
    void op_misc(World& w, Op const& op, Trace const& t);

    template<typename T>
    T scalar_value(u64 v)
    {
        auto e = element<T>(v, v % 5 == 4 ? k_extreme : k_small, v % 13 == 0 ? 100 : 0, 0);
        return raw(e);
    }
    // forms of a binary operation: aa as sa av va ss sv vs
    template<typename T, typename R, bool scalars = true, typename F, typename G>
    void apply_binary(World& w, u64 form, u64 s1, u64 s2, u64 d, u64 v, F f, G g)
    {
        auto ref = [&](Opt<T> x, Opt<T> y) -> Opt<R>
        {
            x = normal(x); y = normal(y);
            if (!x || !y) return {};
            return normal<R>(g(*x, *y));
        };
        auto all = [&](auto x, auto y)
        {
            Ref<R> r(w.n());
            for (std::size_t i = 0; i < r.size(); ++i) r[i] = ref(x(i), y(i));
            return r;
        };
        T const value = scalar_value<T>(v);
        auto val = [&](std::size_t) { return Opt<T>{value}; };
        if (form == 0)
        {
            auto *a = w.find<T>(s1), *b = w.find<T>(s2);
            if (!a || !b) return;
            auto r = all([&](auto i) { return a->ref[i]; }, [&](auto i) { return b->ref[i]; });
            w.put<R>(d, f(a->a, b->a), std::move(r));
        }
        else if constexpr (scalars)
        {
            if (form <= 2)
            {
                auto* a = w.find<T>(s1);
                auto* s = w.find_scalar<T>(s2);
                if (!a || !s) return;
                auto ar = [&](std::size_t i) { return a->ref[i]; };
                auto sr = [&](std::size_t) { return s->ref; };
                auto r = form == 1 ? all(ar, sr) : all(sr, ar);
                w.put<R>(d, form == 1 ? f(a->a, s->s) : f(s->s, a->a), std::move(r));
            }
            else if (form <= 4)
            {
                auto* a = w.find<T>(s1);
                if (!a) return;
                auto ar = [&](std::size_t i) { return a->ref[i]; };
                auto r = form == 3 ? all(ar, val) : all(val, ar);
                w.put<R>(d, form == 3 ? f(a->a, value) : f(value, a->a), std::move(r));
            }
            else
            {
                if constexpr (!std::is_same_v<R, Z>)
                {
                    auto *a = w.find_scalar<T>(s1), *b = w.find_scalar<T>(s2);
                    if (!a || (form == 5 && !b)) { w.put<T>(s1, lue::Scalar<T>{value}, Opt<T>{value}); return; }
                    if (form == 5) w.put<R>(d, f(a->s, b->s), ref(a->ref, b->ref));
                    else if (form == 6) w.put<R>(d, f(a->s, value), ref(a->ref, Opt<T>{value}));
                    else w.put<R>(d, f(value, a->s), ref(Opt<T>{value}, a->ref));
                }
            }
        }
    }
}  // namespace fw
