#include "fwfocal.hpp"
#include "lue/framework/algorithm/definition/clump.hpp"
#include "lue/framework/algorithm/value_policies/clump.hpp"

namespace fw {
    namespace vp = lue::value_policies;
    namespace {
        template<typename T>
        void clump(World& w, u64 s, u64 d, bool diagonal)
        {
            auto* a = w.find<T>(s);
            if (!a) return;
            // components
            std::vector<int> label(w.n(), -1);
            int nr = 0;
            for (std::size_t i = 0; i < w.n(); ++i)
            {
                if (!a->ref[i] || label[i] >= 0) continue;
                std::vector<std::size_t> todo{i};
                label[i] = nr;
                while (!todo.empty())
                {
                    auto k = todo.back();
                    todo.pop_back();
                    Count r = (Count)k / w.w, c = (Count)k % w.w;
                    for (Count dr = -1; dr <= 1; ++dr)
                        for (Count dc = -1; dc <= 1; ++dc)
                        {
                            if ((!dr && !dc) || (!diagonal && dr && dc)) continue;
                            Count R = r + dr, C = c + dc;
                            if (R < 0 || C < 0 || R >= w.h || C >= w.w) continue;
                            auto q = (std::size_t)(R * w.w + C);
                            if (label[q] < 0 && a->ref[q] && *a->ref[q] == *a->ref[i]) { label[q] = nr; todo.push_back(q); }
                        }
                }
                ++nr;
            }
            if (std::is_same_v<T, B> && nr > 250) return;
            Array<T> out = vp::clump(a->a, diagonal ? lue::Connectivity::diagonal : lue::Connectivity::nondiagonal);
            auto got = w.collect(out, "clump");
            std::map<int, T> ids;
            std::map<T, int> labels;
            for (std::size_t i = 0; i < w.n(); ++i)
            {
                std::string where = "clump (" + std::string(diagonal ? "diagonal" : "nondiagonal") + "): cell (" + std::to_string((Count)i / w.w) + ", " + std::to_string((Count)i % w.w) + ") of " + std::to_string(w.h) + "x" + std::to_string(w.w) + " in partitions of " + std::to_string(w.ph) + "x" + std::to_string(w.pw);
                if (bool(got[i]) != (label[i] >= 0)) violate("cell", where + " holds " + text(got[i]) + ", zone is " + text(a->ref[i]));
                if (!got[i]) continue;
                if (!ids.try_emplace(label[i], *got[i]).second && ids[label[i]] != *got[i]) violate("cell", where + " has another id than another cell of the same clump");
                if (!labels.try_emplace(*got[i], label[i]).second && labels[*got[i]] != label[i]) violate("cell", where + " has the id of a cell of another clump");
            }
            if (nr > 1) sim::probe("clumps");
            w.put<T>(d, std::move(out), std::move(got));
        }
    }
    void op_clump(World& w, Op const& op)
    {
        u64 s = op.arg(1), d = op.arg(2);
        if (op.arg(0) % 2) clump<I>(w, s, d, op.arg(3) % 2);
        else clump<Z>(w, s, d, op.arg(3) % 2);
    }
}  // namespace fw
