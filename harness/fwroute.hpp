// Flow networks over partitioned arrays, with the undivided network next to each
#pragma once
#include "fw.hpp"

namespace fw {
    struct Net
    {
        Array<B> a;
        Ref<B> ref;                    // flow directions
        std::vector<i64> down;         // cell drained into, -1: none
        std::vector<std::size_t> order;    // upstream cells first
    };
    constexpr int nr_nets = 2;
    struct Nets
    {
        std::array<Opt<Net>, nr_nets> nets;
        Net* find(u64 i)
        {
            for (int k = 0; k < nr_nets; ++k) if (nets[(i + (u64)k) % nr_nets]) return &*nets[(i + (u64)k) % nr_nets];
            return nullptr;
        }
    };
    // row, column of the neighbour in the direction (keypad layout: 7 8 9 / 4 5 6 / 1 2 3)
    inline constexpr int d_row[10] = {0, 1, 1, 1, 0, 0, 0, -1, -1, -1};
    inline constexpr int d_col[10] = {0, -1, 0, 1, -1, 0, 1, -1, 0, 1};

    inline bool partitions_of(World const& w, Count size) { return w.ph >= size && w.pw >= size; }
    void op_accu(World& w, Net& n, Op const& op);
    void op_accu_threshold(World& w, Net& n, Op const& op);
    void op_accu_fraction(World& w, Net& n, Op const& op);
    void op_accu_trigger(World& w, Net& n, Op const& op);
    void op_accu_capacity(World& w, Net& n, Op const& op);
    void op_wave(World& w, Net& n, Op const& op);
    void op_network(World& w, Net& n, Op const& op);
    void op_order(World& w, Op const& op);

    // material handed down a network; f: (cell, what arrives from upstream) -> outflow, remainder; nothing: no-data
    template<typename F>
    void route(Net const& n, Ref<D>& outflow, Ref<D>& remainder, F f)
    {
        std::size_t N = n.ref.size();
        std::vector<D> in(N, 0.0);
        std::vector<char> bad(N, 0);
        outflow.assign(N, {});
        remainder.assign(N, {});
        for (auto c : n.order)
        {
            if (!n.ref[c]) continue;
            if (!bad[c])
            {
                Opt<std::pair<D, D>> r = f(c, in[c]);
                if (r) { outflow[c] = r->first; remainder[c] = r->second; }
            }
            if (n.down[c] >= 0)
            {
                auto to = (std::size_t)n.down[c];
                if (outflow[c]) in[to] += *outflow[c]; else bad[to] = 1;
            }
        }
    }
    // inflow (array or the same everywhere), parameter (array or the same everywhere)
    struct Value
    {
        Arr<D>* a = nullptr;
        Opt<D> s;
        Opt<D> at(std::size_t i) const { return a ? a->ref[i] : s; }
    };
    // f(flow direction, inflow, parameter) with arrays and scalars as requested
    template<typename F>
    bool with_operands(World& w, Op const& op, Value& x, Value& p, D scale, F f)
    {
        u64 variant = op.arg(1) % 4;
        if (variant & 1) x.s = value_of<D>((D)(op.arg(4) % 17 == 16 ? -1.0 : (D)(op.arg(4) % 17) * 0.25));
        else { x.a = w.find<D>(op.arg(4)); if (!x.a) return false; }
        if (variant & 2) p.s = value_of<D>((D)(op.arg(5) % 19 == 18 ? -1.0 : (D)(op.arg(5) % 19) * scale));
        else { p.a = w.find<D>(op.arg(5)); if (!p.a) return false; }
        lue::Scalar<D> xs{raw(x.s)}, ps{raw(p.s)};
        if (x.a && p.a) f(x.a->a, p.a->a);
        else if (x.a) f(x.a->a, ps);
        else if (p.a) f(xs, p.a->a);
        else f(xs, ps);
        return true;
    }
    template<typename Call, typename Domain, typename Cell>
    void two_results(World& w, Net& n, Op const& op, D scale, bool exact, Call call, Domain domain, Cell cell)
    {
        Value x, p;
        Opt<std::tuple<Array<D>, Array<D>>> out;
        if (!with_operands(w, op, x, p, scale, [&](auto const& a, auto const& b) { out = call(n.a, a, b); })) return;
        Ref<D> o, r;
        route(n, o, r,
            [&](std::size_t i, D in) -> Opt<std::pair<D, D>>
            {
                Opt<D> v = x.at(i), t = p.at(i);
                if (!v || !t || !domain(*v, *t)) return {};
                return cell(in + *v, *t);
            });
        std::vector<double> tol;
        if (!exact)
        {
            // conservation and cell values up to rounding
            double total = 1;
            for (std::size_t i = 0; i < n.ref.size(); ++i) if (Opt<D> v = x.at(i)) total += std::abs(*v);
            tol.assign(n.ref.size(), total * 1e-9);
        }
        w.put<D>(op.arg(2), std::move(std::get<0>(*out)), std::move(o), tol);
        w.put<D>(op.arg(3), std::move(std::get<1>(*out)), std::move(r), std::move(tol));
    }
}  // namespace fw
