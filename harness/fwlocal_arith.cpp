#include "fwlocal.hpp"
#include "lue/framework/algorithm/definition/add.hpp"
#include "lue/framework/algorithm/definition/subtract.hpp"
#include "lue/framework/algorithm/definition/multiply.hpp"
#include "lue/framework/algorithm/definition/divide.hpp"
#include "lue/framework/algorithm/definition/modulus.hpp"
#include "lue/framework/algorithm/definition/pow.hpp"
#include "lue/framework/algorithm/definition/atan2.hpp"
#include "lue/framework/algorithm/value_policies/add.hpp"
#include "lue/framework/algorithm/value_policies/subtract.hpp"
#include "lue/framework/algorithm/value_policies/multiply.hpp"
#include "lue/framework/algorithm/value_policies/divide.hpp"
#include "lue/framework/algorithm/value_policies/modulus.hpp"
#include "lue/framework/algorithm/value_policies/pow.hpp"
#include "lue/framework/algorithm/value_policies/atan2.hpp"

namespace fw {
    namespace vp = lue::value_policies;
    namespace {
        Opt<D> finite(D r) { return std::isinf(r) ? Opt<D>{} : Opt<D>{r}; }
        Opt<I> narrow(i64 r) { return r > 2147483647 || r < -2147483648ll ? Opt<I>{} : Opt<I>{(I)r}; }
    }
    void op_binary(World& w, Op const& op)
    {
        u64 f = op.arg(2) % 8, a = op.arg(3), b = op.arg(4), d = op.arg(5), v = op.arg(6);
        auto go = [&]<typename T>(T*, auto fn, auto ref) { apply_binary<T, T>(w, f, a, b, d, v, fn, ref); };
        if (op.arg(0) % 2 == 0)
            switch (op.arg(1) % 5)
            {
                case 0: go((I*)nullptr, [](auto const& x, auto const& y) { return vp::add(x, y); }, [](I x, I y) { return narrow((i64)x + y); }); break;
                case 1: go((I*)nullptr, [](auto const& x, auto const& y) { return vp::subtract(x, y); }, [](I x, I y) { return narrow((i64)x - y); }); break;
                case 2: go((I*)nullptr, [](auto const& x, auto const& y) { return vp::multiply(x, y); }, [](I x, I y) { return narrow((i64)x * y); }); break;
                case 3: go((I*)nullptr, [](auto const& x, auto const& y) { return vp::divide(x, y); }, [](I x, I y) { return y == 0 ? Opt<I>{} : narrow((i64)x / y); }); break;
                case 4: go((I*)nullptr, [](auto const& x, auto const& y) { return vp::modulus(x, y); }, [](I x, I y) { return y == 0 ? Opt<I>{} : narrow((i64)x % y); }); break;
            }
        else
            switch (op.arg(1) % 7)
            {
                case 0: go((D*)nullptr, [](auto const& x, auto const& y) { return vp::add(x, y); }, [](D x, D y) { return finite(x + y); }); break;
                case 1: go((D*)nullptr, [](auto const& x, auto const& y) { return vp::subtract(x, y); }, [](D x, D y) { return finite(x - y); }); break;
                case 2: go((D*)nullptr, [](auto const& x, auto const& y) { return vp::multiply(x, y); }, [](D x, D y) { return finite(x * y); }); break;
                case 3: go((D*)nullptr, [](auto const& x, auto const& y) { return vp::divide(x, y); }, [](D x, D y) { return y == 0 ? Opt<D>{} : finite(x / y); }); break;
                case 4: go((D*)nullptr, [](auto const& x, auto const& y) { return vp::modulus(x, y); }, [](D x, D y) { return y == 0 ? Opt<D>{} : Opt<D>{std::fmod(x, y)}; }); break;
                case 5: go((D*)nullptr, [](auto const& x, auto const& y) { return vp::pow(x, y); }, [](D x, D y) { return Opt<D>{std::pow(x, y)}; }); break;
                case 6:
                    apply_binary<D, D, false>(w, 0, a, b, d, v, [](auto const& x, auto const& y) { return vp::atan2(x, y); }, [](D x, D y) { return Opt<D>{std::atan2(x, y)}; });
                    break;
            }
    }
}  // namespace fw
