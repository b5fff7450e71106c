#include "fwroute.hpp"
#include "lue/framework/algorithm/definition/kinematic_wave.hpp"
#include "lue/framework/algorithm/value_policies/kinematic_wave.hpp"

namespace fw {
    namespace {
        // discharge leaving a cell: root of q dt/l + alpha q^beta = upstream dt/l + alpha current^beta + dt inflow
        D discharge(D upstream, D current, D inflow, D alpha, D beta, D dt, D length)
        {
            D known = dt / length * upstream + alpha * std::pow(current, beta) + dt * inflow;
            if (known <= 0) return 0;
            D lo = 0, hi = known * length / dt;
            for (int i = 0; i < 200; ++i)
            {
                D m = (lo + hi) / 2;
                (dt / length * m + alpha * std::pow(m, beta) > known ? hi : lo) = m;
            }
            return (lo + hi) / 2;
        }
        // the number of iterations in the solver is limited and for some inputs more are needed (known upstream:
        // issue 703), mostly where the initial guess is poor because a cell is dry
        bool converges(D upstream, D current, D inflow, D alpha, D beta, D dt, D length)
        {
            if (upstream + current + inflow <= 0) return true;
            lue::detail::NonLinearKinematicWave<D> f{upstream, current, inflow, alpha, beta, dt, length};
            std::uintmax_t n{10};
            boost::math::tools::newton_raphson_iterate(f, f.guess(), D{0}, std::numeric_limits<D>::max(), static_cast<int>(std::numeric_limits<D>::digits * 0.6), n);
            return n < 10;
        }
    }
    void op_wave(World& w, Net& n, Op const& op)   // net, variant, destination, -, current, inflow, seed
    {
        auto *c = w.find<D>(op.arg(4)), *x = w.find<D>(op.arg(5));
        if (!c || !x) return;
        for (auto* a : {c, x})
            for (auto const& v : a->ref)
                if (v && !(std::abs(*v) < 1e6)) return;   // the solver overflows
        u64 seed = op.arg(6);
        D dt = 1 + (D)(sim::mix(seed, 1) % 20);
        auto alpha = [&](std::size_t i) { return 0.5 + (D)(sim::mix(seed, 10 * i + 2) % 20) * 0.125; };
        auto beta = [&](std::size_t i) { return 0.6 + (D)(sim::mix(seed, 10 * i + 3) % 3) * 0.05; };
        auto length = [&](std::size_t i) { return 5 + (D)(sim::mix(seed, 10 * i + 4) % 20); };
        bool arrays = op.arg(1) & 1;
        std::vector<char> none(w.n(), 0);
        Opt<Array<D>> out;
        auto at = [&](std::size_t i) { return arrays ? i + 1 : 0; };
        if (arrays)
        {
            Ref<D> a(w.n()), b(w.n()), l(w.n());
            for (std::size_t i = 0; i < w.n(); ++i)
            {
                a[i] = alpha(i + 1); b[i] = beta(i + 1); l[i] = length(i + 1);
                u64 k = sim::mix(seed, 10 * i + 5) % 200;
                if (k == 0) a[i].reset();
                if (k == 1) b[i].reset();
                if (k == 2) l[i].reset();
                if (k == 3) l[i] = -1.0;
                none[i] = k < 4;
            }
            Trace t;
            t.cfg["dist"] = 1;
            u64 mode = sim::mix(seed, 6) % 4;
            out = lue::value_policies::kinematic_wave(n.a, c->a, x->a, w.make<D>(t, a, mode, seed), w.make<D>(t, b, mode, seed + 1), lue::Scalar<D>{dt}, w.make<D>(t, l, mode, seed + 2));
        }
        else out = lue::value_policies::kinematic_wave(n.a, c->a, x->a, lue::Scalar<D>{alpha(0)}, lue::Scalar<D>{beta(0)}, lue::Scalar<D>{dt}, lue::Scalar<D>{length(0)});
        Ref<D> o, r;
        bool few = false;
        double total = 1;
        route(n, o, r,
            [&](std::size_t i, D in) -> Opt<std::pair<D, D>>
            {
                if (!c->ref[i] || !x->ref[i] || none[i] || *c->ref[i] < 0 || *x->ref[i] < 0) return {};
                auto k = at(i);
                D q = discharge(in, *c->ref[i], *x->ref[i], alpha(k), beta(k), dt, length(k));
                if (!converges(in, *c->ref[i], *x->ref[i], alpha(k), beta(k), dt, length(k)))
                {
                    few = true;
                    q = lue::detail::iterate_to_new_discharge(in, *c->ref[i], *x->ref[i], alpha(k), beta(k), dt, length(k));
                }
                total += q;
                return std::pair<D, D>{q, 0};
            });
        if (few) sim::probe("wave in cells needing many iterations");
        w.put<D>(op.arg(2), std::move(*out), std::move(o), std::vector<double>(w.n(), total * 1e-5));
    }
}  // namespace fw
