// Partitioned arrays of the modelling framework with, next to each, the undivided array it stands for.
#pragma once
#include "simkit.hpp"
#include "lue/framework/partitioned_array.hpp"
#include "lue/framework/partitioned_array_impl.hpp"
#include "lue/framework/partitioned_array/array_partition_impl.hpp"
#include "lue/framework/partitioned_array/server/array_partition_impl.hpp"
#include "lue/framework/algorithm/create_partitioned_array.hpp"
#include "lue/framework/algorithm/scalar.hpp"
#include <cmath>
#include <limits>
#include <optional>

namespace fw {
    template<typename T> struct BufferHandle { using Element = T; std::shared_ptr<std::vector<T>> p; };
}
namespace lue::detail {
    template<typename T> struct ArrayTraits<fw::BufferHandle<T>> { using Element = T; };
}
namespace fw {
    using I = std::int32_t;
    using D = double;
    using B = std::uint8_t;
    using Z = std::uint64_t;
    using u64 = std::uint64_t;
    using i64 = std::int64_t;
    using sim::Op;
    using sim::Rng;
    using sim::Run;
    using sim::Trace;
    using sim::violate;
    using lue::Index;
    using lue::Count;
    using Shape = lue::Shape<Count, 2>;

    template<typename T> using Array = lue::PartitionedArray<T, 2>;
    template<typename T> using Partition = lue::PartitionT<Array<T>>;
    template<typename T> using Partitions = lue::PartitionsT<Array<T>>;
    template<typename T> using Data = lue::DataT<Partition<T>>;
    template<typename T> using Opt = std::optional<T>;
    template<typename T> using Ref = std::vector<Opt<T>>;

    template<typename T>
    T no_data()
    {
        if constexpr (std::is_floating_point_v<T>) return std::numeric_limits<T>::quiet_NaN();
        else return std::is_signed_v<T> ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
    }
    template<typename T>
    Opt<T> value_of(T v)   // what a cell with this content stands for
    {
        if constexpr (std::is_floating_point_v<T>) return std::isnan(v) ? Opt<T>{} : Opt<T>{v};
        else return v == no_data<T>() ? Opt<T>{} : Opt<T>{v};
    }
    template<typename T>
    Opt<T> normal(Opt<T> v) { return v ? value_of<T>(*v) : v; }
    template<typename T>
    T raw(Opt<T> v) { return v ? *v : no_data<T>(); }
    template<typename T>
    std::string text(Opt<T> v)
    {
        if (!v) return "no-data";
        if constexpr (std::is_floating_point_v<T>)
        {
            char b[40];
            std::snprintf(b, sizeof b, "%.17g", (double)*v);
            return b;
        }
        else return std::to_string(*v);
    }
    template<typename T> char const* type_name() { return std::is_same_v<T, I> ? "int32" : std::is_same_v<T, D> ? "float64" : std::is_same_v<T, B> ? "uint8" : "uint64"; }

    template<typename T>
    struct Arr
    {
        Array<T> a;
        Ref<T> ref;
        std::vector<double> tol{};     // per cell, empty: exact
        std::string from{};
        bool exact() const { return tol.empty(); }
    };
    template<typename T>
    struct Sc
    {
        lue::Scalar<T> s;
        Opt<T> ref;
        double tol = 0;
        std::string from{};
    };

    constexpr int nr_slots = 4;

    struct World
    {
        bool any_partitions = false;           // whatever the partitions are, they have to cover the array
        bool leaks_known = false;              // objects which refer to each other exist
        std::string label;                     // of what is being executed
        Count h = 1, w = 1, ph = 1, pw = 1;
        std::vector<std::uint32_t> where;      // locality per partition
        std::tuple<std::array<Opt<Arr<I>>, nr_slots>, std::array<Opt<Arr<D>>, nr_slots>, std::array<Opt<Arr<B>>, nr_slots>, std::array<Opt<Arr<Z>>, nr_slots>> arrays;
        std::tuple<std::array<Opt<Sc<I>>, nr_slots>, std::array<Opt<Sc<D>>, nr_slots>, std::array<Opt<Sc<B>>, nr_slots>> scalars;

        template<typename T> auto& slots() { return std::get<std::array<Opt<Arr<T>>, nr_slots>>(arrays); }
        template<typename T> auto& scs() { return std::get<std::array<Opt<Sc<T>>, nr_slots>>(scalars); }
        template<typename T> void put(u64 slot, Array<T>&& a, Ref<T> ref, std::vector<double> tol = {})
        {
            for (auto& v : ref) v = normal(v);
            slots<T>()[slot % nr_slots] = Arr<T>{std::move(a), std::move(ref), std::move(tol), label};
        }
        template<typename T> void put(u64 slot, lue::Scalar<T> s, Opt<T> ref, double tol = 0)
        {
            scs<T>()[slot % nr_slots] = Sc<T>{std::move(s), normal(ref), tol, label};
        }
        // an array to use as operand: exactly known, first at or after the slot
        template<typename T> Arr<T>* find(u64 slot)
        {
            for (int i = 0; i < nr_slots; ++i)
            {
                auto& s = slots<T>()[(slot + (u64)i) % nr_slots];
                if (s && s->exact()) return &*s;
            }
            return nullptr;
        }
        template<typename T> Sc<T>* find_scalar(u64 slot)
        {
            for (int i = 0; i < nr_slots; ++i)
            {
                auto& s = scs<T>()[(slot + (u64)i) % nr_slots];
                if (s && s->tol == 0) return &*s;
            }
            return nullptr;
        }
        Count nh() const { return h / ph; }     // the last partition takes what remains
        Count nw() const { return w / pw; }
        Count pi(Count r) const { return std::min(r / ph, nh() - 1); }    // partition holding a row, column
        Count pj(Count c) const { return std::min(c / pw, nw() - 1); }
        std::size_t n() const { return (std::size_t)(h * w); }
        Shape shape() const { return {h, w}; }
        Shape partition_shape() const { return {ph, pw}; }
        void begin(Trace const& t)
        {
            h = std::max<i64>(1, t.c("h", 1));
            w = std::max<i64>(1, t.c("w", 1));
            ph = std::min<Count>(h, std::max<i64>(1, t.c("ph", 1)));
            pw = std::min<Count>(w, std::max<i64>(1, t.c("pw", 1)));
            while (nh() * nw() > 64) { if (nh() > nw()) ++ph; else ++pw; }
            u64 loc = std::max<u64>(1, (u64)t.c("loc", 1));
            loc = std::min<u64>({loc, 6, (u64)(nh() * nw())});
            hpx::sim::random_seed = (u64)t.c("rnd");
            hpx::sim::start((std::uint32_t)loc);
        }
        // where partitions live
        lue::LocalitiesPtr<2> localities(Trace const& t)
        {
            if (!_localities)
            {
                if (t.c("dist") == 0)
                {
                    auto a = lue::create_partitioned_array(shape(), partition_shape(), I{0});
                    _localities = a.localities_ptr();
                    if (_localities->shape()[0] != nh() || _localities->shape()[1] != nw())
                        violate("partitions", "an array of " + std::to_string(h) + "x" + std::to_string(w) + " in partitions of " + std::to_string(ph) + "x" + std::to_string(pw) + " does not have " + std::to_string(nh()) + "x" + std::to_string(nw()) + " partitions");
                    for (auto const& p : a.partitions()) p.wait();
                }
                else
                {
                    lue::Localities<2> l{Shape{nh(), nw()}};
                    for (Count i = 0; i < nh() * nw(); ++i)
                        l[i] = hpx::id_type{hpx::sim::locality_object((std::uint32_t)(sim::mix((u64)t.c("dist"), (u64)i) % hpx::sim::nr_localities()))};
                    _localities = std::make_shared<lue::Localities<2>>(std::move(l));
                }
            }
            return _localities;
        }
        template<typename T>
        Data<T> cut(Ref<T> const& ref, Count pi, Count pj) const
        {
            Count r0 = pi * ph, c0 = pj * pw, nr = pi == nh() - 1 ? h - r0 : ph, nc = pj == nw() - 1 ? w - c0 : pw;
            Data<T> d{Shape{nr, nc}};
            for (Count r = 0; r < nr; ++r)
                for (Count c = 0; c < nc; ++c) d(r, c) = raw(ref[(std::size_t)((r0 + r) * w + c0 + c)]);
            return d;
        }
        // late: each partition becomes available after a number of scheduling steps
        template<typename T>
        Array<T> make(Trace const& t, Ref<T> const& ref, u64 mode, u64 seed)
        {
            auto ls = localities(t);
            if (mode % 4 == 0 && t.c("dist") == 0)
            {
                // from a buffer
                std::vector<T> copy;
                for (auto const& v : ref) copy.push_back(raw(v));
                return make_from_buffer<T>(std::move(copy));
            }
            if (mode % 4 == 1 && t.c("dist") == 0)
            {
                Array<T> a{lue::create_partitioned_array<T>(shape(), partition_shape())};
                for (Count i = 0; i < nh() * nw(); ++i)
                {
                    auto& p = a.partitions()[i];
                    p.wait();
                    p.set_data(hpx::launch::sync, cut(ref, i / nw(), i % nw()));
                }
                return a;
            }
            Partitions<T> ps{Shape{nh(), nw()}};
            for (Count i = 0; i < nh() * nw(); ++i)
            {
                Count pi = i / nw(), pj = i % nw();
                typename Partition<T>::Offset offset{pi * ph, pj * pw};
                hpx::id_type locality = (*ls)[i];
                u64 late = mode % 4 == 3 ? sim::mix(seed, (u64)i) % 400 : 0;
                if (late > 20)
                {
                    auto pr = std::make_shared<hpx::promise<Partition<T>>>();
                    auto f = pr->get_future();
                    hpx::sim::after(late,
                        [pr, locality, offset, data = cut(ref, pi, pj)]() mutable
                        { pr->set_value(Partition<T>{locality, offset, std::move(data)}); });
                    ps[i] = Partition<T>{std::move(f)};
                }
                else ps[i] = Partition<T>{locality, offset, cut(ref, pi, pj)};
            }
            return Array<T>{shape(), ls, std::move(ps)};
        }
        template<typename T> Array<T> make_from_buffer(std::vector<T> buffer)
        {
            using Functor = lue::InstantiateFromBuffer<BufferHandle<T>, 2>;
            return lue::create_partitioned_array(shape(), partition_shape(),
                Functor{BufferHandle<T>{std::make_shared<std::vector<T>>(std::move(buffer))}, [](BufferHandle<T> const& h) { return h.p->data(); }});
        }

        // every cell of the array, as seen from here
        template<typename T>
        Ref<T> collect(Array<T> const& a, char const* what, Count eh = 0, Count ew = 0)
        {
            Ref<T> out(n());
            std::vector<char> seen(n(), 0);
            if (a.shape()[0] != h || a.shape()[1] != w)
                violate("shape", std::string(what) + ": array of shape " + std::to_string(a.shape()[0]) + "x" + std::to_string(a.shape()[1]) + " instead of " + std::to_string(h) + "x" + std::to_string(w));
            (void)eh; (void)ew;
            if (!any_partitions && a.nr_partitions() != nh() * nw())
                violate("partitions", std::string(what) + ": " + std::to_string(a.nr_partitions()) + " partitions instead of " + std::to_string(nh() * nw()));
            for (auto const& p : a.partitions())
            {
                p.wait();
                Data<T> d = p.data(hpx::launch::sync);
                auto o = p.offset(hpx::launch::sync);
                auto s = p.shape(hpx::launch::sync);
                if (s != d.shape()) violate("shape", std::string(what) + ": shape of partition differs from shape of its data");
                for (Count r = 0; r < s[0]; ++r)
                    for (Count c = 0; c < s[1]; ++c)
                    {
                        Count R = (Count)o[0] + r, C = (Count)o[1] + c;
                        if (R < 0 || C < 0 || R >= h || C >= w) violate("offset", std::string(what) + ": a partition covers cell (" + std::to_string(R) + ", " + std::to_string(C) + ") outside of the array");
                        auto k = (std::size_t)(R * w + C);
                        if (seen[k]) violate("offset", std::string(what) + ": partitions overlap in cell (" + std::to_string(R) + ", " + std::to_string(C) + ")");
                        seen[k] = 1;
                        out[k] = value_of<T>(d(r, c));
                    }
            }
            for (std::size_t k = 0; k < seen.size(); ++k)
                if (!seen[k]) violate("offset", std::string(what) + ": no partition covers cell (" + std::to_string((Count)k / w) + ", " + std::to_string((Count)k % w) + ")");
            return out;
        }
        template<typename T>
        void check(Arr<T> const& a, char const* what)
        {
            std::string name = std::string(what) + " made by " + a.from;
            auto got = collect(a.a, name.c_str());
            for (std::size_t k = 0; k < got.size(); ++k)
            {
                bool same;
                if (!got[k] || !a.ref[k]) same = !got[k] && !a.ref[k];
                else if constexpr (std::is_floating_point_v<T>)
                {
                    double t = a.tol.empty() ? 0 : a.tol[k];
                    same = *got[k] == *a.ref[k] || std::abs(*got[k] - *a.ref[k]) <= t;
                }
                else same = *got[k] == *a.ref[k];
                if (!same)
                    violate("cell", name + " (" + type_name<T>() + "): cell (" + std::to_string((Count)k / w) + ", " + std::to_string((Count)k % w) + ") of " + std::to_string(h) + "x" + std::to_string(w) + " in partitions of " + std::to_string(ph) + "x" + std::to_string(pw) + " holds " + text(got[k]) + " instead of " + text(a.ref[k]));
            }
        }
        template<typename T>
        void check(Sc<T> const& s, char const* what)
        {
            Opt<T> got = value_of<T>(s.s.future().get());
            bool same = bool(got) == bool(s.ref) && (!got || *got == *s.ref || std::abs((double)*got - (double)*s.ref) <= s.tol);
            if (!same) violate("scalar", std::string(what) + " made by " + s.from + " (" + type_name<T>() + "): " + text(got) + " instead of " + text(s.ref));
        }
        template<typename F> void for_types(F f)
        {
            f((I*)nullptr); f((D*)nullptr); f((B*)nullptr); f((Z*)nullptr);
        }
        void check_all(char const* what)
        {
            for_types([&]<typename T>(T*) { for (auto& s : slots<T>()) if (s) check(*s, what); });
            auto cs = [&]<typename T>(T*) { for (auto& s : scs<T>()) if (s) check(*s, what); };
            cs((I*)nullptr); cs((D*)nullptr); cs((B*)nullptr);
        }
        void clear()
        {
            for_types([&]<typename T>(T*) { for (auto& s : slots<T>()) s.reset(); });
            auto cs = [&]<typename T>(T*) { for (auto& s : scs<T>()) s.reset(); };
            cs((I*)nullptr); cs((D*)nullptr); cs((B*)nullptr);
            _localities.reset();
        }
        void end()
        {
            clear();
            if (!hpx::sim::stop() && !leaks_known)
                violate("leak", std::to_string(hpx::sim::live_components) + " partitions or other components still exist after everything was released");
        }
        lue::LocalitiesPtr<2> _localities;
    };

    // ------------------------------------------------------------------ contents
    enum { k_small, k_wide, k_extreme, k_constant, k_nr };
    template<typename T>
    Opt<T> element(u64 seed, u64 kind, u64 pct_no_data, u64 i)
    {
        u64 h = sim::mix(seed, i * 2 + 1), g = sim::mix(seed, i * 2 + 2);
        if (g % 100 < pct_no_data) return {};
        if constexpr (std::is_same_v<T, B>) return (B)(kind == k_extreme ? h % 255 : h % 2);
        else if constexpr (std::is_same_v<T, Z>)
        {
            if (kind == k_extreme) return (Z)(h >> (h % 60));
            return (Z)(h % (kind == k_small ? 4 : kind == k_wide ? 30 : 1));
        }
        else if constexpr (std::is_same_v<T, I>)
        {
            static constexpr I ext[] = {2147483647, 2147483646, -2147483647, -2147483646, 0, 1, -1, 65536, -65536, 46341, 1073741824, -1073741824};
            if (kind == k_small) return (I)(h % 11) - 5;
            if (kind == k_wide) return (I)(h % 2001) - 1000;
            if (kind == k_extreme) return ext[h % 12];
            return (I)(seed % 7) - 3;
        }
        else
        {
            static constexpr D ext[] = {1.7e308, -1.7e308, 1e-300, -1e-300, 0.0, -0.0, 1e9, -1e9, 3e9, -3e9, 0.5, -0.5, 255.5, 254.99, 1.0, 1e154};
            if (kind == k_small) return (D)((i64)(h % 41) - 20) * 0.25;
            if (kind == k_wide) return (D)((i64)(h % 20001) - 10000) * 0.125;
            if (kind == k_extreme) return ext[h % 16];
            return (D)((i64)(seed % 9) - 4) * 0.5;
        }
    }
    template<typename T>
    Ref<T> content(World const& w, u64 seed, u64 kind, u64 pct)
    {
        Ref<T> r(w.n());
        for (std::size_t i = 0; i < r.size(); ++i) r[i] = normal(element<T>(seed, kind % k_nr, pct, kind % k_nr == k_constant ? 0 : i));
        if (kind % k_nr == k_constant && pct)
            for (std::size_t i = 0; i < r.size(); ++i) if (sim::mix(seed, i) % 100 < pct) r[i].reset(); else r[i] = element<T>(seed, k_constant, 0, 0);
        return r;
    }

    // ------------------------------------------------------------------ schedules and faults
    inline void generate_schedule(Rng& rng, Trace& t, double quiet = 0.1)
    {
        if (rng.chance(quiet)) return;
        int n = (int)rng.range(1, 5);
        static constexpr std::uint32_t counts[] = {1, 3, 20, 200, 1000000};
        for (int i = 0; i < n; ++i)
        {
            sim::Fault f;
            f.op = rng.chance(0.4) ? 0 : (std::uint32_t)rng.below(std::max<std::size_t>(1, t.ops.size()));
            f.nth = rng.chance(0.4) ? 0 : (std::uint32_t)rng.below(rng.chance(0.5) ? 20 : 300);
            f.arg = (std::uint32_t)rng.below(1u << 30);
            f.count = counts[rng.below(5)];
            switch (rng.below(10))
            {
                case 0: case 1: case 2: f.cls = sim::fc_sched; f.kind = sim::fk_pick; break;
                case 3: f.cls = sim::fc_sched; f.kind = sim::fk_last; break;
                case 4: case 5: f.cls = sim::fc_sched; f.kind = sim::fk_slow; break;
                case 6: case 7: f.cls = sim::fc_msg; f.kind = sim::fk_delay; break;
                default: f.cls = sim::fc_yield; f.kind = sim::fk_preempt; break;
            }
            t.faults.push_back(f);
        }
    }
    inline void generate_geometry(Rng& rng, Trace& t)
    {
        auto dim = [&] { return rng.chance(0.1) ? rng.range(1, 2) : rng.chance(0.2) ? rng.range(10, 24) : rng.range(3, 12); };
        t.cfg["h"] = dim();
        t.cfg["w"] = dim();
        auto part = [&](i64 d) { return rng.chance(0.1) ? d : rng.chance(0.15) ? 1 : rng.range(1, std::max<i64>(1, d - 1)); };
        t.cfg["ph"] = part(t.cfg["h"]);
        t.cfg["pw"] = part(t.cfg["w"]);
        t.cfg["loc"] = rng.chance(0.25) ? 1 : rng.range(2, 5);
        t.cfg["rnd"] = rng.range(0, 1000000);
        t.cfg["dist"] = rng.chance(0.6) ? 0 : rng.range(1, 1000);
    }

    // common to the harnesses
    struct Base: sim::Harness
    {
        std::string profile;
        Run* run = nullptr;
        World w;
        explicit Base(std::string p): profile{std::move(p)} {}
        void begin(Run& r) override
        {
            run = &r;
            w.begin(r.trace);
        }
        void progress(u64 steps)
        {
            for (u64 i = 0; i < steps; ++i) if (!hpx::sim::step()) break;
        }
        template<typename T>
        void create(Op const& op)   // type, slot, seed, kind, pct, mode
        {
            auto ref = content<T>(w, op.arg(2), op.arg(3), op.arg(4) % 101);
            auto a = w.make<T>(run->trace, ref, op.arg(5), op.arg(2));
            w.put<T>(op.arg(1), std::move(a), std::move(ref));
        }
        void with_type(u64 t, auto f)
        {
            switch (t % 4)
            {
                case 0: f((I*)nullptr); break;
                case 1: f((D*)nullptr); break;
                case 2: f((B*)nullptr); break;
                case 3: f((Z*)nullptr); break;
            }
        }
        bool common_op(Op const& op)
        {
            w.label = op.kind;
            for (std::size_t i = 0; i < op.a.size() && i < 3; ++i) w.label += " " + std::to_string(op.a[i] % 100000);
            if (op.kind == "new") with_type(op.arg(0), [&]<typename T>(T*) { create<T>(op); });
            else if (op.kind == "check") with_type(op.arg(0), [&]<typename T>(T*) { auto& s = w.slots<T>()[op.arg(1) % nr_slots]; if (s) w.check(*s, "array"); });
            else if (op.kind == "drop") with_type(op.arg(0), [&]<typename T>(T*) { w.slots<T>()[op.arg(1) % nr_slots].reset(); });
            else if (op.kind == "run") progress(op.arg(0) % 2000);
            else return false;
            return true;
        }
        void finish(Run&) override
        {
            w.check_all("array at the end");
            w.end();
            note();
        }
        void note()
        {
            if (hpx::sim::delayed_parcels) sim::probe("parcels delayed");
            if (hpx::sim::random_picks) sim::probe("tasks reordered");
            if (hpx::sim::stalled_picks) sim::probe("locality stalled");
            if (hpx::sim::preemptions) sim::probe("task preempted");
            if (hpx::sim::parcels) sim::probe("parcels between localities");
        }
        Op new_op(Rng& rng, u64 type)
        {
            return {"new", {type, rng.below(nr_slots), rng.next() >> 20, rng.chance(0.5) ? (u64)k_small : rng.below(k_nr), rng.chance(0.4) ? 0 : rng.chance(0.1) ? 100 : rng.below(40), rng.below(4)}};
        }
    };
}  // namespace fw
