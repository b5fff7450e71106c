// Local, aggregating and zonal operations on partitioned arrays versus the undivided arrays.
#include "fwlocal.hpp"

namespace fw {
    struct H: Base
    {
        using Base::Base;
        std::vector<std::string> profiles() const override { return {"F01"}; }
        void generate(Rng& rng, Trace& t) override
        {
            generate_geometry(rng, t);
            for (u64 type = 0; type < 4; ++type) { auto o = new_op(rng, type); o.a[1] = 0; t.ops.push_back(o); }
            if (rng.chance(0.5)) { auto o = new_op(rng, rng.below(4)); t.ops.push_back(o); }
            int n = (int)rng.range(3, 14);
            for (int i = 0; i < n; ++i)
            {
                u64 k = rng.below(100), s = rng.below(nr_slots), s2 = rng.below(nr_slots), d = rng.below(nr_slots), v = rng.next() >> 20;
                if (k < 22) t.ops.push_back({"binary", {rng.below(2), rng.below(6), rng.below(8), s, s2, d, v}});
                else if (k < 30) t.ops.push_back({"compare", {rng.below(2), rng.below(7), rng.below(8), s, s2, d, v}});
                else if (k < 34) t.ops.push_back({"logic", {rng.below(4), rng.below(5), s, s2, d, v}});
                else if (k < 44) t.ops.push_back({"where", {rng.below(2), rng.below(12), s, s2, rng.below(nr_slots), d, v}});
                else if (k < 52) t.ops.push_back({"unary", {rng.below(2), rng.below(16), s, d}});
                else if (k < 58) t.ops.push_back({"cast", {rng.below(8), s, d}});
                else if (k < 66) t.ops.push_back({"aggregate", {rng.below(8), s, d}});
                else if (k < 76) t.ops.push_back({"zonal", {rng.below(12), s, s2, d}});
                else if (k < 85) t.ops.push_back({"misc", {rng.below(9), s, d, v}});
                else if (k < 88) t.ops.push_back(new_op(rng, rng.below(4)));
                else if (k < 92) t.ops.push_back({"run", {rng.below(rng.chance(0.5) ? 20 : 500)}});
                else if (k < 96) t.ops.push_back({"check", {rng.below(4), s}});
                else t.ops.push_back({"drop", {rng.below(4), s}});
            }
            generate_schedule(rng, t);
        }
        void step(Run&, Op const& op) override
        {
            if (common_op(op)) return;
            if (op.kind == "binary") op_binary(w, op);
            else if (op.kind == "compare") op_compare(w, op);
            else if (op.kind == "logic") op_logic(w, op);
            else if (op.kind == "where") op_where(w, op);
            else if (op.kind == "unary") op_unary(w, op);
            else if (op.kind == "cast") op_cast(w, op);
            else if (op.kind == "aggregate") op_aggregate(w, op);
            else if (op.kind == "zonal") op_zonal(w, op);
            else if (op.kind == "misc") op_misc(w, op, run->trace);
        }
    };
}  // namespace fw

int main(int argc, char** argv)
{
    return sim::main_(argc, argv, [](std::string const& p) { return new fw::H(p); });
}
