#include "fwlocal.hpp"
#include "lue/framework/algorithm/definition/abs.hpp"
#include "lue/framework/algorithm/definition/negate.hpp"
#include "lue/framework/algorithm/definition/ceil.hpp"
#include "lue/framework/algorithm/definition/floor.hpp"
#include "lue/framework/algorithm/definition/round.hpp"
#include "lue/framework/algorithm/definition/trunc.hpp"
#include "lue/framework/algorithm/definition/sqrt.hpp"
#include "lue/framework/algorithm/definition/exp.hpp"
#include "lue/framework/algorithm/definition/log.hpp"
#include "lue/framework/algorithm/definition/log10.hpp"
#include "lue/framework/algorithm/definition/sin.hpp"
#include "lue/framework/algorithm/definition/cos.hpp"
#include "lue/framework/algorithm/definition/tan.hpp"
#include "lue/framework/algorithm/definition/asin.hpp"
#include "lue/framework/algorithm/definition/acos.hpp"
#include "lue/framework/algorithm/definition/atan.hpp"
#include "lue/framework/algorithm/definition/cast.hpp"
#include "lue/framework/algorithm/definition/valid.hpp"
#include "lue/framework/algorithm/definition/where.hpp"
#include "lue/framework/algorithm/value_policies/abs.hpp"
#include "lue/framework/algorithm/value_policies/negate.hpp"
#include "lue/framework/algorithm/value_policies/ceil.hpp"
#include "lue/framework/algorithm/value_policies/floor.hpp"
#include "lue/framework/algorithm/value_policies/round.hpp"
#include "lue/framework/algorithm/value_policies/trunc.hpp"
#include "lue/framework/algorithm/value_policies/sqrt.hpp"
#include "lue/framework/algorithm/value_policies/exp.hpp"
#include "lue/framework/algorithm/value_policies/log.hpp"
#include "lue/framework/algorithm/value_policies/log10.hpp"
#include "lue/framework/algorithm/value_policies/sin.hpp"
#include "lue/framework/algorithm/value_policies/cos.hpp"
#include "lue/framework/algorithm/value_policies/tan.hpp"
#include "lue/framework/algorithm/value_policies/asin.hpp"
#include "lue/framework/algorithm/value_policies/acos.hpp"
#include "lue/framework/algorithm/value_policies/atan.hpp"
#include "lue/framework/algorithm/value_policies/cast.hpp"
#include "lue/framework/algorithm/value_policies/valid.hpp"
#include "lue/framework/algorithm/value_policies/where.hpp"

namespace fw {
    namespace vp = lue::value_policies;
    namespace {
        template<typename T, typename R, typename F, typename G>
        void apply(World& w, u64 s, u64 d, F f, G g)
        {
            auto* a = w.find<T>(s);
            if (!a) return;
            Ref<R> r(w.n());
            for (std::size_t i = 0; i < r.size(); ++i) r[i] = g(a->ref[i]);
            w.put<R>(d, f(a->a), std::move(r));
        }
        template<typename T, typename R, typename F, typename G>
        void valued(World& w, u64 s, u64 d, F f, G g)
        {
            apply<T, R>(w, s, d, f, [&](Opt<T> v) -> Opt<R> { if (!v) return {}; return g(*v); });
        }
    }
    void op_unary(World& w, Op const& op)
    {
        u64 s = op.arg(2), d = op.arg(3);
        if (op.arg(0) % 2 == 0)
        {
            switch (op.arg(1) % 6)
            {
                case 0: valued<I, I>(w, s, d, [](auto const& a) { return vp::abs(a); }, [](I v) { return Opt<I>{std::abs(v)}; }); break;
                case 1: valued<I, I>(w, s, d, [](auto const& a) { return vp::negate(a); }, [](I v) { return Opt<I>{-v}; }); break;
                case 2: apply<I, B>(w, s, d, [](auto const& a) { return vp::valid<B>(a); }, [](Opt<I> v) { return Opt<B>{(B)(v ? 1 : 0)}; }); break;
                case 3: apply<D, B>(w, s, d, [](auto const& a) { return vp::valid<B>(a); }, [](Opt<D> v) { return Opt<B>{(B)(v ? 1 : 0)}; }); break;
                case 4: apply<Z, B>(w, s, d, [](auto const& a) { return vp::valid<B>(a); }, [](Opt<Z> v) { return Opt<B>{(B)(v ? 1 : 0)}; }); break;
            }
            return;
        }
        auto g = [&](auto f, auto h) { valued<D, D>(w, s, d, f, [&](D v) { return Opt<D>{h(v)}; }); };
        auto gd = [&](auto f, auto h, auto dom) { valued<D, D>(w, s, d, f, [&](D v) { return dom(v) ? Opt<D>{h(v)} : Opt<D>{}; }); };
        switch (op.arg(1) % 16)
        {
            case 0: g([](auto const& a) { return vp::abs(a); }, [](D v) { return std::abs(v); }); break;
            case 1: g([](auto const& a) { return vp::negate(a); }, [](D v) { return -v; }); break;
            case 2: g([](auto const& a) { return vp::ceil(a); }, [](D v) { return std::ceil(v); }); break;
            case 3: g([](auto const& a) { return vp::floor(a); }, [](D v) { return std::floor(v); }); break;
            case 4: g([](auto const& a) { return vp::round(a); }, [](D v) { return std::round(v); }); break;
            case 5: g([](auto const& a) { return vp::trunc(a); }, [](D v) { return std::trunc(v); }); break;
            case 6: gd([](auto const& a) { return vp::sqrt(a); }, [](D v) { return std::sqrt(v); }, [](D v) { return v >= 0; }); break;
            case 7: gd([](auto const& a) { return vp::exp(a); }, [](D v) { return std::exp(v); }, [](D v) { return !std::isinf(std::exp(v)); }); break;
            case 8: gd([](auto const& a) { return vp::log(a); }, [](D v) { return std::log(v); }, [](D v) { return v >= 0; }); break;
            case 9: gd([](auto const& a) { return vp::log10(a); }, [](D v) { return std::log10(v); }, [](D v) { return v >= 0; }); break;
            case 10: g([](auto const& a) { return vp::sin(a); }, [](D v) { return std::sin(v); }); break;
            case 11: g([](auto const& a) { return vp::cos(a); }, [](D v) { return std::cos(v); }); break;
            case 12: g([](auto const& a) { return vp::tan(a); }, [](D v) { return std::tan(v); }); break;
            case 13: gd([](auto const& a) { return vp::asin(a); }, [](D v) { return std::asin(v); }, [](D v) { return v >= -1 && v <= 1; }); break;
            case 14: gd([](auto const& a) { return vp::acos(a); }, [](D v) { return std::acos(v); }, [](D v) { return v >= -1 && v <= 1; }); break;
            case 15: g([](auto const& a) { return vp::atan(a); }, [](D v) { return std::atan(v); }); break;
        }
    }
    void op_cast(World& w, Op const& op)
    {
        u64 s = op.arg(1), d = op.arg(2);
        switch (op.arg(0) % 8)
        {
            case 0: valued<I, D>(w, s, d, [](auto const& a) { return vp::cast<D>(a); }, [](I v) { return Opt<D>{(D)v}; }); break;
            case 1: valued<D, I>(w, s, d, [](auto const& a) { return vp::cast<I>(a); }, [](D v) { return v >= -2147483648.0 && v <= 2147483647.0 ? Opt<I>{(I)v} : Opt<I>{}; }); break;
            case 2: valued<B, I>(w, s, d, [](auto const& a) { return vp::cast<I>(a); }, [](B v) { return Opt<I>{(I)v}; }); break;
            case 3: valued<I, B>(w, s, d, [](auto const& a) { return vp::cast<B>(a); }, [](I v) { return v >= 0 && v <= 255 ? Opt<B>{(B)v} : Opt<B>{}; }); break;
            case 4: valued<Z, I>(w, s, d, [](auto const& a) { return vp::cast<I>(a); }, [](Z v) { return v <= 2147483647u ? Opt<I>{(I)v} : Opt<I>{}; }); break;
            case 5: valued<I, Z>(w, s, d, [](auto const& a) { return vp::cast<Z>(a); }, [](I v) { return v >= 0 ? Opt<Z>{(Z)v} : Opt<Z>{}; }); break;
            case 6: valued<D, B>(w, s, d, [](auto const& a) { return vp::cast<B>(a); }, [](D v) { return v >= 0 && v <= 255 ? Opt<B>{(B)v} : Opt<B>{}; }); break;
            case 7: valued<B, D>(w, s, d, [](auto const& a) { return vp::cast<D>(a); }, [](B v) { return Opt<D>{(D)v}; }); break;
        }
    }
    namespace {
        template<typename T>
        void where(World& w, u64 form, u64 c, u64 s1, u64 s2, u64 d, u64 v)
        {
            auto* cond = w.find<B>(c);
            auto *a = w.find<T>(s1), *b = w.find<T>(s2);
            auto *x = w.find_scalar<T>(s1), *y = w.find_scalar<T>(s2);
            if (!cond || !a || !b) return;
            T const v1 = scalar_value<T>(v), v2 = scalar_value<T>(v / 7 + 1);
            static constexpr char const* names[] = {"aa", "av", "va", "vv", "as", "sa", "ss", "sv", "vs", "a", "v", "s"};
            std::string n = names[form];
            if (n.find('s') != n.npos && (!x || !y)) return;
            auto ref = [&](char k, std::size_t i, bool first) -> Opt<T>
            {
                if (k == 'a') return first ? a->ref[i] : b->ref[i];
                if (k == 's') return first ? x->ref : y->ref;
                return value_of<T>(first ? v1 : v2);
            };
            Ref<T> r(w.n());
            for (std::size_t i = 0; i < r.size(); ++i)
            {
                if (!cond->ref[i]) continue;
                if (*cond->ref[i]) r[i] = ref(n[0], i, true);
                else if (n.size() == 2) r[i] = ref(n[1], i, false);
            }
            auto const& C = cond->a;
            Array<T> out = [&]() -> Array<T>
            {
                switch (form)
                {
                    case 0: return vp::where(C, a->a, b->a);
                    case 1: return vp::where(C, a->a, v2);
                    case 2: return vp::where(C, v1, b->a);
                    case 3: return vp::where(C, v1, v2);
                    case 4: return vp::where(C, a->a, y->s);
                    case 5: return vp::where(C, x->s, b->a);
                    case 6: return vp::where(C, x->s, y->s);
                    case 7: return vp::where(C, x->s, v2);
                    case 8: return vp::where(C, v1, y->s);
                    case 9: return vp::where(C, a->a);
                    case 10: return vp::where(C, v1);
                    default: return vp::where(C, x->s.future());
                }
            }();
            w.put<T>(d, std::move(out), std::move(r));
        }
    }
    void op_where(World& w, Op const& op)
    {
        if (op.arg(0) % 2) where<D>(w, op.arg(1) % 12, op.arg(2), op.arg(3), op.arg(4), op.arg(5), op.arg(6));
        else where<I>(w, op.arg(1) % 12, op.arg(2), op.arg(3), op.arg(4), op.arg(5), op.arg(6));
    }
}  // namespace fw
