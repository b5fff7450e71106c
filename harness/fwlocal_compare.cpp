#include "fwlocal.hpp"
#include "lue/framework/algorithm/definition/equal_to.hpp"
#include "lue/framework/algorithm/definition/not_equal_to.hpp"
#include "lue/framework/algorithm/definition/less_than.hpp"
#include "lue/framework/algorithm/definition/less_than_equal_to.hpp"
#include "lue/framework/algorithm/definition/greater_than.hpp"
#include "lue/framework/algorithm/definition/greater_than_equal_to.hpp"
#include "lue/framework/algorithm/definition/close_to.hpp"
#include "lue/framework/algorithm/definition/logical_and.hpp"
#include "lue/framework/algorithm/definition/logical_inclusive_or.hpp"
#include "lue/framework/algorithm/definition/logical_exclusive_or.hpp"
#include "lue/framework/algorithm/definition/logical_not.hpp"
#include "lue/framework/algorithm/value_policies/equal_to.hpp"
#include "lue/framework/algorithm/value_policies/not_equal_to.hpp"
#include "lue/framework/algorithm/value_policies/less_than.hpp"
#include "lue/framework/algorithm/value_policies/less_than_equal_to.hpp"
#include "lue/framework/algorithm/value_policies/greater_than.hpp"
#include "lue/framework/algorithm/value_policies/greater_than_equal_to.hpp"
#include "lue/framework/algorithm/value_policies/close_to.hpp"
#include "lue/framework/algorithm/value_policies/logical_and.hpp"
#include "lue/framework/algorithm/value_policies/logical_inclusive_or.hpp"
#include "lue/framework/algorithm/value_policies/logical_exclusive_or.hpp"
#include "lue/framework/algorithm/value_policies/logical_not.hpp"

namespace fw {
    namespace vp = lue::value_policies;
    void op_compare(World& w, Op const& op)
    {
        u64 f = op.arg(2) % 8, a = op.arg(3), b = op.arg(4), d = op.arg(5), v = op.arg(6);
        auto go = [&]<typename T>(T*)
        {
            auto g = [&](auto fn, auto ref) { apply_binary<T, B>(w, f, a, b, d, v, fn, [&](T x, T y) { return Opt<B>{(B)ref(x, y)}; }); };
            switch (op.arg(1) % 7)
            {
                case 0: g([](auto const& x, auto const& y) { return vp::equal_to<B>(x, y); }, [](T x, T y) { return x == y; }); break;
                case 1: g([](auto const& x, auto const& y) { return vp::not_equal_to<B>(x, y); }, [](T x, T y) { return x != y; }); break;
                case 2: g([](auto const& x, auto const& y) { return vp::less_than<B>(x, y); }, [](T x, T y) { return x < y; }); break;
                case 3: g([](auto const& x, auto const& y) { return vp::less_than_equal_to<B>(x, y); }, [](T x, T y) { return x <= y; }); break;
                case 4: g([](auto const& x, auto const& y) { return vp::greater_than<B>(x, y); }, [](T x, T y) { return x > y; }); break;
                case 5: g([](auto const& x, auto const& y) { return vp::greater_than_equal_to<B>(x, y); }, [](T x, T y) { return x >= y; }); break;
                case 6:
                    if constexpr (std::is_same_v<T, D>)
                        g([](auto const& x, auto const& y) { return vp::close_to<B>(x, y); }, [](T x, T y) { return std::abs(x - y) <= 1e-8 + 1e-5 * std::abs(y); });
                    break;
            }
        };
        if (op.arg(0) % 2 == 0) go((I*)nullptr);
        else go((D*)nullptr);
    }
    void op_logic(World& w, Op const& op)
    {
        u64 f = op.arg(1) % 5, a = op.arg(2), b = op.arg(3), d = op.arg(4), v = op.arg(5);
        auto g = [&](auto fn, auto ref) { apply_binary<B, B>(w, f, a, b, d, v, fn, [&](B x, B y) { return Opt<B>{(B)ref(x, y)}; }); };
        switch (op.arg(0) % 4)
        {
            case 0: g([](auto const& x, auto const& y) { return vp::logical_and<B>(x, y); }, [](B x, B y) { return x && y; }); break;
            case 1: g([](auto const& x, auto const& y) { return vp::logical_inclusive_or<B>(x, y); }, [](B x, B y) { return x || y; }); break;
            case 2: g([](auto const& x, auto const& y) { return vp::logical_exclusive_or<B>(x, y); }, [](B x, B y) { return (!x) != (!y); }); break;
            case 3:
            {
                auto* s = w.find<B>(a);
                if (!s) return;
                Ref<B> r(w.n());
                for (std::size_t i = 0; i < r.size(); ++i) if (s->ref[i]) r[i] = !*s->ref[i];
                w.put<B>(d, vp::logical_not<B>(s->a), std::move(r));
                break;
            }
        }
    }
}  // namespace fw
