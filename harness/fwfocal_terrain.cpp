#include "fwfocal.hpp"
#include "lue/framework/algorithm/serialize/kernel.hpp"
#include "lue/framework/algorithm/definition/slope.hpp"
#include "lue/framework/algorithm/definition/aspect.hpp"
#include "lue/framework/algorithm/definition/gradients.hpp"
#include "lue/framework/algorithm/definition/convolve.hpp"
#include "lue/framework/algorithm/definition/d8_flow_direction.hpp"
#include "lue/framework/algorithm/definition/resample.hpp"
#include "lue/framework/algorithm/value_policies/slope.hpp"
#include "lue/framework/algorithm/value_policies/aspect.hpp"
#include "lue/framework/algorithm/value_policies/d8_flow_direction.hpp"
#include "lue/framework/algorithm/value_policies/resample.hpp"

namespace fw {
    namespace vp = lue::value_policies;
    namespace {
        std::pair<Opt<D>, Opt<D>> gradient(World const& w, Ref<D> const& ref, std::size_t i, D cell)
        {
            static Window const k = window(1, 0);
            static constexpr int sobel[3] = {1, 2, 1};
            Opt<D> x, y;
            visit(w, ref, k, i,
                [&](D v, Count r, Count c)
                {
                    x = x.value_or(0) + v * (D)(c * sobel[r + 1]);
                    y = y.value_or(0) + v * (D)(r * sobel[c + 1]);
                });
            if (x) { *x /= 8 * cell; *y /= 8 * cell; }
            return {x, y};
        }
        template<typename T>
        void d8(World& w, u64 s, u64 d)
        {
            auto* a = w.find<T>(s);
            if (!a) return;
            for (auto const& v : a->ref) if (v && std::abs((double)*v) > 1e9) return;
            Array<B> out = vp::d8_flow_direction<B>(a->a);
            if (!large_enough(w, 3)) { refused(w, out, 3, "d8_flow_direction"); return; }
            static constexpr int order[8][3] = {{-1, 0, 8}, {0, -1, 4}, {0, 1, 6}, {1, 0, 2}, {-1, -1, 7}, {-1, 1, 9}, {1, -1, 1}, {1, 1, 3}};
            Ref<B> ref(w.n());
            for (std::size_t i = 0; i < ref.size(); ++i)
            {
                if (!a->ref[i]) continue;
                T drop = 0;
                ref[i] = 5;
                for (auto const& o : order)
                {
                    Count r = (Count)i / w.w + o[0], c = (Count)i % w.w + o[1];
                    Opt<T> v = r < 0 || c < 0 || r >= w.h || c >= w.w ? value_of<T>(std::numeric_limits<T>::min()) : a->ref[(std::size_t)(r * w.w + c)];
                    if (!v) continue;
                    T o_drop = *a->ref[i] - *v;
                    if (o_drop > drop) { drop = o_drop; ref[i] = (B)o[2]; }
                }
            }
            w.put<B>(d, std::move(out), std::move(ref));
        }
        template<typename T>
        void downscale(World& w, u64 s, Count count)
        {
            auto* a = w.find<T>(s);
            if (!a) return;
            Array<T> out = vp::downscale(a->a, count, lue::DownscaleStrategy::assign);
            World big;
            big.h = w.h * count;
            big.w = w.w * count;
            big.ph = w.ph;
            big.pw = w.pw;
            big.any_partitions = true;
            Arr<T> r{std::move(out), Ref<T>(big.n()), {}, "downscale by " + std::to_string(count)};
            for (Count i = 0; i < big.h; ++i)
                for (Count j = 0; j < big.w; ++j) r.ref[(std::size_t)(i * big.w + j)] = a->ref[(std::size_t)(i / count * w.w + j / count)];
            big.check(r, "downscaled array");
        }
    }
    void op_terrain(World& w, Op const& op)
    {
        u64 s = op.arg(1), d = op.arg(2), v = op.arg(3);
        Window k = window(1, 0);
        switch (op.arg(0) % 6)
        {
            case 0: case 1:
            {
                auto* a = w.find<D>(s);
                if (!a) return;
                double m = 0;
                for (auto const& x : a->ref) if (x) m = std::max(m, std::abs(*x));
                if (m > 1e6) return;
                D cell = op.arg(0) % 6 == 0 ? (D)(1 + v % 7) * 0.5 : 1;
                if (op.arg(0) % 6 == 0)
                    focal<D>(w, s, d, k, "slope", [&](auto const& a) { return vp::slope(a, cell); },
                        [&](auto const& ref, std::size_t i) -> std::pair<Opt<D>, double>
                        {
                            auto [x, y] = gradient(w, ref, i, cell);
                            if (!x) return {Opt<D>{}, 0};
                            return {Opt<D>{std::sqrt(*x * *x + *y * *y)}, 1e-9 * (m / cell + 1)};
                        });
                else
                {
                    for (auto const& x : a->ref) if (x && std::remainder(*x, 0.0625) != 0) return;   // gradients must be exact
                    focal<D>(w, s, d, k, "aspect", [&](auto const& a) { return vp::aspect(a); },
                        [&](auto const& ref, std::size_t i) -> std::pair<Opt<D>, double>
                        {
                            auto [x, y] = gradient(w, ref, i, cell);
                            if (!x) return {Opt<D>{}, 0};
                            D const pi = 3.14159265358979323846;
                            D r = 0;
                            if (*x == 0) r = *y > 0 ? pi : 0;
                            else if (*y == 0) r = *x < 0 ? 1.5 * pi : 0.5 * pi;
                            else r = std::atan(*x / *y) + (*x < 0 ? 1.5 * pi : 0.5 * pi);
                            return {Opt<D>{r}, 1e-9};
                        });
                }
                break;
            }
            case 2: d8<D>(w, s, d); break;
            case 3: d8<I>(w, s, d); break;
            case 4: downscale<D>(w, s, 1 + (Count)(v % 3)); break;
            case 5: downscale<I>(w, s, 1 + (Count)(v % 3)); break;
        }
    }
}  // namespace fw
