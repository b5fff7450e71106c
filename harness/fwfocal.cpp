// Focal operations, flow directions and clumps of partitioned arrays versus the undivided arrays.
#include "fwfocal.hpp"

namespace fw {
    struct H: Base
    {
        using Base::Base;
        std::vector<std::string> profiles() const override { return {"F02"}; }
        void generate(Rng& rng, Trace& t) override
        {
            generate_geometry(rng, t);
            u64 radius = rng.below(4);
            if (rng.chance(0.92))
            {
                // partitions which can be used with the kernel
                auto fit = [&](char const* n, char const* p)
                {
                    i64 size = std::max<i64>(3, 2 * (i64)radius + 1);
                    t.cfg[p] = std::max<i64>(size, t.cfg[p] % 10);
                    t.cfg[n] = std::max<i64>(t.cfg[p] * rng.range(1, 4) + rng.range(0, t.cfg[p] - 1), 1);
                };
                fit("h", "ph");
                fit("w", "pw");
            }
            for (u64 type = 0; type < 4; ++type) { auto o = new_op(rng, type); o.a[1] = 0; if (rng.chance(0.8)) o.a[3] = rng.below(2); t.ops.push_back(o); }
            if (rng.chance(0.5)) { auto o = new_op(rng, rng.below(4)); t.ops.push_back(o); }
            int n = (int)rng.range(2, 9);
            for (int i = 0; i < n; ++i)
            {
                u64 k = rng.below(100), s = rng.below(nr_slots), d = rng.below(nr_slots), v = rng.next() >> 20, r = rng.below(radius + 1);
                if (rng.chance(0.4)) r = radius;
                if (k < 28) t.ops.push_back({"int", {rng.below(6), r, rng.next() >> 30, s, d}});
                else if (k < 58) t.ops.push_back({"float", {rng.below(6), r, rng.next() >> 30, s, d, v}});
                else if (k < 72) t.ops.push_back({"terrain", {rng.below(6), s, d, v}});
                else if (k < 84) t.ops.push_back({"clump", {rng.below(2), s, d, v}});
                else if (k < 88) t.ops.push_back(new_op(rng, rng.below(4)));
                else if (k < 92) t.ops.push_back({"run", {rng.below(rng.chance(0.5) ? 20 : 500)}});
                else if (k < 96) t.ops.push_back({"check", {rng.below(4), s}});
                else t.ops.push_back({"drop", {rng.below(4), s}});
            }
            generate_schedule(rng, t);
        }
        void step(Run&, Op const& op) override
        {
            if (common_op(op)) return;
            if (op.kind == "int") op_focal_int(w, op);
            else if (op.kind == "float") op_focal_float(w, op);
            else if (op.kind == "terrain") op_terrain(w, op);
            else if (op.kind == "clump") op_clump(w, op);
        }
    };
}  // namespace fw

int main(int argc, char** argv)
{
    return sim::main_(argc, argv, [](std::string const& p) { return new fw::H(p); });
}
