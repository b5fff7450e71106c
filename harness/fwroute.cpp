// Routing operations over partitioned flow networks versus the undivided networks.
#include "fwroute.hpp"
#include <numeric>

namespace fw {
    struct H: Base
    {
        using Base::Base;
        Nets nets;
        std::vector<std::string> profiles() const override { return {"F03"}; }
        void generate(Rng& rng, Trace& t) override
        {
            generate_geometry(rng, t);
            auto fit = [&](char const* n, char const* p)
            {
                t.cfg[p] = std::max<i64>(2, t.cfg[p]);
                if (t.cfg[n] / t.cfg[p] < 2 && rng.chance(0.8)) t.cfg[p] = rng.range(2, 4);
                if (t.cfg[n] < t.cfg[p]) t.cfg[n] = t.cfg[p];
            };
            fit("h", "ph");
            fit("w", "pw");
            auto net = [&](u64 slot) { t.ops.push_back({"net", {slot, rng.next() >> 20, rng.below(6), rng.chance(0.5) ? 0 : rng.below(25), rng.chance(0.5) ? rng.below(6) : rng.below(40), rng.below(4)}}); };
            auto flow = [&](u64 slot) { t.ops.push_back({"flow", {slot, rng.next() >> 20, rng.below(4), rng.chance(0.6) ? 0 : rng.below(10), rng.below(4)}}); };
            net(0);
            if (rng.chance(0.3)) net(1);
            flow(0);
            flow(1);
            if (rng.chance(0.5)) { auto o = new_op(rng, 2); t.ops.push_back(o); }
            int n = (int)rng.range(2, 8);
            for (int i = 0; i < n; ++i)
            {
                u64 k = rng.below(100), d = rng.below(nr_slots), d2 = rng.below(nr_slots), s = rng.below(nr_slots), p = rng.next() >> 40;
                std::vector<u64> a{rng.below(nr_nets), rng.below(8), d, d2, rng.chance(0.7) ? s : p, rng.chance(0.7) ? rng.below(nr_slots) : p >> 3, rng.next() >> 40, rng.below(2)};
                if (k < 18) t.ops.push_back({"accu", a});
                else if (k < 26) t.ops.push_back({"threshold", a});
                else if (k < 34) t.ops.push_back({"fraction", a});
                else if (k < 42) t.ops.push_back({"trigger", a});
                else if (k < 50) t.ops.push_back({"capacity", a});
                else if (k < 57) t.ops.push_back({"wave", a});
                else if (k < 72) t.ops.push_back({"network", a});
                else if (k < 82) t.ops.push_back({"order", a});
                else if (k < 85) flow(rng.below(nr_slots));
                else if (k < 87) net(rng.below(nr_nets));
                else if (k < 90) t.ops.push_back(new_op(rng, rng.below(4)));
                else if (k < 93) t.ops.push_back({"run", {rng.below(rng.chance(0.5) ? 20 : 500)}});
                else if (k < 96) t.ops.push_back({"check", {rng.below(4), s}});
                else if (k < 98) t.ops.push_back({"forget", {rng.below(nr_nets)}});
                else t.ops.push_back({"drop", {rng.below(4), s}});
            }
            generate_schedule(rng, t);
        }
        // acyclic: cells drain towards cells with a lower rank, or out of the array
        void net(Op const& op)   // slot, seed, style, % no-data, % sinks, mode
        {
            u64 seed = op.arg(1), style = op.arg(2) % 6;
            std::size_t N = w.n();
            std::vector<u64> rank(N);
            Ref<B> ref(N);
            auto cell = [&](Count r, Count c) { return (std::size_t)(r * w.w + c); };
            std::vector<char> valid(N, 1);
            for (std::size_t i = 0; i < N; ++i) valid[i] = sim::mix(seed, 7 * i + 1) % 100 >= op.arg(3) % 101;
            if (style <= 1)
            {
                // random heights, in style 1 with a tilt: long streams
                for (std::size_t i = 0; i < N; ++i)
                    rank[i] = (style == 1 ? (i / (std::size_t)w.w + i % (std::size_t)w.w) * 500 : 0) + sim::mix(seed, 7 * i + 2) % 1000;
            }
            else if (style == 2)
            {
                // there and back through all columns: one stream which keeps crossing the partitions
                for (Count r = 0; r < w.h; ++r)
                    for (Count c = 0; c < w.w; ++c) rank[cell(r, c)] = (u64)(seed & 1 ? r * w.w + (r % 2 ? w.w - 1 - c : c) : c * w.h + (c % 2 ? w.h - 1 - r : r));
            }
            else if (style == 3)
            {
                // everything in one direction
                int d = (int)(seed % 9) + 1;
                for (std::size_t i = 0; i < N; ++i) rank[i] = (u64)(10000 - d_row[d] * (Count)(i / (std::size_t)w.w) - d_col[d] * (Count)(i % (std::size_t)w.w));
                for (std::size_t i = 0; i < N; ++i) if (valid[i]) ref[i] = (B)d;
            }
            else
            {
                // a random tree growing from a root
                std::vector<std::size_t> front{(std::size_t)(sim::mix(seed, 3) % N)};
                std::fill(rank.begin(), rank.end(), ~0ull);
                rank[front[0]] = 0;
                u64 k = 0;
                while (!front.empty())
                {
                    std::size_t at = style == 4 ? sim::mix(seed, 100 + k) % front.size() : sim::mix(seed, 100 + k) % 4 ? front.size() - 1 : sim::mix(seed, 101 + k) % front.size();
                    std::size_t f = front[at];
                    ++k;
                    std::vector<int> ds;
                    for (int d = 1; d <= 9; ++d)
                    {
                        Count r = (Count)f / w.w + d_row[d], c = (Count)f % w.w + d_col[d];
                        if (d != 5 && r >= 0 && c >= 0 && r < w.h && c < w.w && rank[cell(r, c)] == ~0ull) ds.push_back(d);
                    }
                    if (ds.empty()) { front.erase(front.begin() + (std::ptrdiff_t)at); continue; }
                    int d = ds[sim::mix(seed, 100000 + k) % ds.size()];
                    std::size_t o = cell((Count)f / w.w + d_row[d], (Count)f % w.w + d_col[d]);
                    rank[o] = k;
                    ref[o] = (B)(10 - d);
                    front.push_back(o);
                }
                for (std::size_t i = 0; i < N; ++i) if (!ref[i]) ref[i] = 5;
            }
            Net n;
            n.down.assign(N, -1);
            for (std::size_t i = 0; i < N; ++i)
            {
                if (!valid[i]) { ref[i].reset(); continue; }
                Count r0 = (Count)i / w.w, c0 = (Count)i % w.w;
                if (!ref[i])
                {
                    std::vector<int> ds;
                    u64 lowest = rank[i];
                    for (int d = 1; d <= 9; ++d)
                    {
                        if (d == 5) continue;
                        Count r = r0 + d_row[d], c = c0 + d_col[d];
                        if (r < 0 || c < 0 || r >= w.h || c >= w.w)
                        {
                            if (sim::mix(seed, 7 * i + 3) % 8 == 0) ds.push_back(d);
                            continue;
                        }
                        auto v = rank[cell(r, c)];
                        if (v >= rank[i] || !valid[cell(r, c)]) continue;
                        if (style == 2 && v + 1 != rank[i]) continue;
                        (void)lowest;
                        ds.push_back(d);
                    }
                    ref[i] = ds.empty() ? (B)5 : (B)ds[sim::mix(seed, 7 * i + 4) % ds.size()];
                }
                if (sim::mix(seed, 7 * i + 5) % 100 < op.arg(4) % 101) ref[i] = 5;
                if (*ref[i] != 5)
                {
                    Count r = r0 + d_row[*ref[i]], c = c0 + d_col[*ref[i]];
                    if (r >= 0 && c >= 0 && r < w.h && c < w.w)
                    {
                        if (valid[cell(r, c)]) n.down[i] = (i64)cell(r, c);
                        else ref[i] = 5;    // cells do not drain into cells which are not there
                    }
                }
            }
            n.order.resize(N);
            std::iota(n.order.begin(), n.order.end(), 0);
            std::stable_sort(n.order.begin(), n.order.end(), [&](auto a, auto b) { return rank[a] > rank[b]; });
            n.a = w.make<B>(run->trace, ref, op.arg(5), seed);
            n.ref = std::move(ref);
            nets.nets[op.arg(0) % nr_nets] = std::move(n);
        }
        // material to route
        void flow(Op const& op)   // slot, seed, kind, % no-data, mode
        {
            u64 seed = op.arg(1);
            Ref<D> ref(w.n());
            for (std::size_t i = 0; i < w.n(); ++i)
            {
                u64 h = sim::mix(seed, 2 * i);
                if (sim::mix(seed, 2 * i + 1) % 100 < op.arg(3) % 101) { if (h % 3) ref[i].reset(); else ref[i] = -0.25; continue; }
                switch (op.arg(2) % 4)
                {
                    case 0: ref[i] = (D)(h % 41) * 0.25; break;
                    case 1: ref[i] = (D)(h % 5 == 0 ? h % 1000 : 0); break;
                    case 2: ref[i] = (D)(h % 17) * 0.0625; break;
                    case 3: ref[i] = 1.0; break;
                }
            }
            auto a = w.make<D>(run->trace, ref, op.arg(4), seed);
            w.put<D>(op.arg(0), std::move(a), std::move(ref));
        }
        void step(Run&, Op const& op) override
        {
            if (common_op(op)) return;
            if (op.kind == "net") { net(op); return; }
            if (op.kind == "flow") { flow(op); return; }
            if (op.kind == "forget") { nets.nets[op.arg(0) % nr_nets].reset(); return; }
            if (op.kind == "order") { op_order(w, op); return; }
            Net* n = nets.find(op.arg(0));
            if (!n) return;
            // known finding: partitions of a single row or column which border on others
            if (!partitions_of(w, 2) && w.nh() * w.nw() > 1 && !run->trace.c("thin", 0)) return;
            if (op.kind == "accu") op_accu(w, *n, op);
            else if (op.kind == "threshold") op_accu_threshold(w, *n, op);
            else if (op.kind == "fraction") op_accu_fraction(w, *n, op);
            else if (op.kind == "trigger") op_accu_trigger(w, *n, op);
            else if (op.kind == "capacity") op_accu_capacity(w, *n, op);
            else if (op.kind == "wave") op_wave(w, *n, op);
            else if (op.kind == "network") op_network(w, *n, op);
        }
        void finish(Run& r) override
        {
            for (auto& n : nets.nets) n.reset();
            Base::finish(r);
        }
    };
}  // namespace fw

int main(int argc, char** argv)
{
    return sim::main_(argc, argv, [](std::string const& p) { return new fw::H(p); });
}
