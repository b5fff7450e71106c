// Reading and writing partitioned arrays from and to LUE datasets: the framework's io library on the simulated
// HPX runtime, with the real data model and HDF5 on the simulated disk. Each locality is a process of its own: it
// has its own static variables, its own opened files and its own file locks.
#include "fw.hpp"
#include "lue/framework/io/from_lue.hpp"
#include "lue/framework/io/to_lue.hpp"
#include "lue/framework/algorithm/value_policies/add.hpp"
#include "lue/framework/algorithm/definition/binary_local_operation.hpp"
#include "lue/data_model/hl/raster_view.hpp"
#include <hdf5.h>
#include <any>
#include <map>

extern "C" {
extern char __start_simprivate_bss[] __attribute__((weak));
extern char __stop_simprivate_bss[] __attribute__((weak));
extern char __start_simprivate_data[] __attribute__((weak));
extern char __stop_simprivate_data[] __attribute__((weak));

// another thread may call HDF5 first
#define WRAP(R, N, P, A) \
    R __real_##N P; \
    R __wrap_##N P \
    { \
        hpx::sim::yield(); \
        return __real_##N A; \
    }
WRAP(hid_t, H5Fopen, (char const* n, unsigned f, hid_t p), (n, f, p))
WRAP(herr_t, H5Fclose, (hid_t f), (f))
WRAP(hid_t, H5Dopen2, (hid_t l, char const* n, hid_t p), (l, n, p))
WRAP(hid_t, H5Gopen2, (hid_t l, char const* n, hid_t p), (l, n, p))
WRAP(hid_t, H5Oopen, (hid_t l, char const* n, hid_t p), (l, n, p))
WRAP(herr_t, H5Dwrite, (hid_t d, hid_t m, hid_t s, hid_t f, hid_t p, void const* b), (d, m, s, f, p, b))
WRAP(herr_t, H5Dread, (hid_t d, hid_t m, hid_t s, hid_t f, hid_t p, void* b), (d, m, s, f, p, b))
}

namespace fw {
    namespace ldm = lue::data_model;
    namespace h5 = lue::hdf5;

    constexpr int nr_datasets = 2;
    constexpr int nr_io_types = 2;
    constexpr u64 max_steps = 4;
    char const* const io_name[nr_io_types] = {"i", "d"};

    struct Stored
    {
        std::map<std::pair<int, u64>, std::any> content;     // by type, time step
    };

    struct H: Base
    {
        using Base::Base;
        std::vector<std::string> profiles() const override { return {"F05"}; }

        u64 datasets = 1, steps = 1;
        bool constant = false, faulty = false;
        ldm::ID id[nr_datasets];
        std::map<std::tuple<u64, int, u64>, std::any> stored;     // dataset, type, time step
        struct Pending { hpx::future<void> f; std::string what; };
        std::map<u64, std::vector<Pending>> pending;             // per dataset
        bool given_up = false;

        static std::string file(u64 d) { return "/simfs/d" + std::to_string(d) + ".lue"; }
        std::string pathname(u64 d, int t) const { return file(d) + "/area/area/" + io_name[t]; }

        void generate(Rng& rng, Trace& t) override
        {
            generate_geometry(rng, t);
            t.cfg["h"] = std::min<i64>(t.cfg["h"], 8);
            t.cfg["w"] = std::min<i64>(t.cfg["w"], 8);
            t.cfg["ds"] = rng.chance(0.75) ? 1 : 2;
            t.cfg["steps"] = rng.chance(0.6) ? 1 : rng.range(2, (i64)max_steps);
            t.cfg["constant"] = rng.chance(0.2);
            t.cfg["dist"] = 0;
            int n = (int)rng.range(2, 14);
            t.ops.push_back(new_op(rng, 0));
            if (rng.chance(0.5)) t.ops.push_back(new_op(rng, 1));
            double const waits = rng.chance(0.5) ? 0 : rng.chance(0.5) ? 1 : 0.4;
            for (int i = 0; i < n; ++i)
            {
                u64 type = rng.chance(0.8) ? 0 : 1;
                auto slot = rng.below(nr_slots);
                auto d = rng.below(2), s = rng.below(max_steps);
                if (rng.chance(0.4)) t.ops.push_back({"write", {type, slot, d, s, rng.chance(waits)}});
                else if (rng.chance(0.6)) t.ops.push_back({"read", {type, slot, d, s, rng.below(3), rng.below(64), rng.below(64), rng.next() >> 30}});
                else if (rng.chance(0.3)) t.ops.push_back({"add", {type, slot, rng.below(nr_slots), rng.below(100)}});
                else if (rng.chance(0.3)) t.ops.push_back(new_op(rng, type));
                else if (rng.chance(0.3)) t.ops.push_back({"run", {rng.below(400)}});
                else if (rng.chance(0.3)) t.ops.push_back({"check", {type, slot}});
                else if (rng.chance(0.3)) t.ops.push_back({"drop", {type, slot}});
                else t.ops.push_back({"wait", {d}});
            }
            generate_schedule(rng, t);
            if (rng.chance(0.3))
            {
                // the disk fails
                t.cfg["faulty"] = 1;
                int m = (int)rng.range(1, 3);
                for (int i = 0; i < m; ++i)
                {
                    sim::Fault f;
                    f.op = (std::uint32_t)rng.below(t.ops.size());
                    f.nth = (std::uint32_t)rng.below(rng.chance(0.5) ? 8 : 80);
                    f.count = rng.chance(0.7) ? 1 : (std::uint32_t)rng.range(2, 40);
                    f.arg = (std::uint32_t)rng.below(1u << 20);
                    switch (rng.below(6))
                    {
                        case 0: f.cls = sim::fc_open; f.kind = rng.chance(0.5) ? sim::fk_eacces : sim::fk_emfile; break;
                        case 1: f.cls = sim::fc_lock; f.kind = sim::fk_ewouldblock; break;
                        case 2: f.cls = sim::fc_read | sim::fc_write; f.kind = rng.chance(0.5) ? sim::fk_short : sim::fk_eintr; f.count = 1 + f.count % 3; break;
                        default: f.cls = sim::fc_read; f.kind = sim::fk_eio; break;
                    }
                    t.faults.push_back(f);
                }
            }
        }

        template<typename View>
        void add_layers(View&& v)
        {
            v.template add_layer<I>(io_name[0]);
            v.template add_layer<D>(io_name[1]);
        }
        void begin(Run& r) override
        {
            if (__start_simprivate_bss) hpx::sim::process_private(__start_simprivate_bss, __stop_simprivate_bss);
            if (__start_simprivate_data) hpx::sim::process_private(__start_simprivate_data, __stop_simprivate_data);
            hpx::sim::on_here = [](std::uint32_t l) { sim::set_actor((int)l); };
            H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
            Base::begin(r);
            sim::NoFaults quiet;
            datasets = std::min<u64>(nr_datasets, std::max<i64>(1, r.trace.c("ds", 1)));
            steps = std::min<u64>(max_steps, std::max<i64>(1, r.trace.c("steps", 1)));
            constant = r.trace.c("constant") != 0;
            for (u64 d = 0; d < datasets; ++d)
            {
                h5::Shape shape{(hsize_t)w.h, (hsize_t)w.w};
                auto p = std::make_shared<ldm::Dataset>(ldm::create_dataset(file(d)));
                if (constant)
                {
                    auto v = ldm::constant::create_raster_view(p, "area", "area", shape, {0, 0, 10, 10});
                    add_layers(v);
                    id[d] = v.object_id();
                }
                else
                {
                    auto v = ldm::variable::create_raster_view(p, "area", "area", ldm::Clock{ldm::time::Unit::day, 1}, (ldm::Count)steps, {0, (ldm::time::DurationCount)steps}, shape, {0, 0, 10, 10});
                    add_layers(v);
                    id[d] = v.object_id();
                }
            }
        }
        template<typename F> void with_io_type(u64 t, F f)
        {
            if (t % nr_io_types == 0) f((I*)nullptr, 0); else f((D*)nullptr, 1);
        }
        void wait(u64 d)
        {
            // What is not waited for yet stays in the list
            auto& ps = pending[d];
            while (!ps.empty())
            {
                auto f = std::move(ps.front().f);
                ps.erase(ps.begin());
                f.get();
            }
        }
        template<typename T>
        void write(Op const& op, int t)
        {
            auto* a = w.find<T>(op.arg(1));
            if (!a) return;
            u64 d = op.arg(2) % datasets, s = constant ? 0 : op.arg(3) % steps;
            hpx::future<void> f = constant ? lue::to_lue(a->a, pathname(d, t), id[d]) : lue::to_lue(a->a, pathname(d, t), id[d], (Index)s);
            stored[{d, t, s}] = a->ref;
            pending[d].push_back({std::move(f), w.label});
            sim::probe("array written");
            if (op.arg(4) & 1)
            {
                sim::probe("waited for writing");
                wait(d);
            }
        }
        template<typename T>
        void read(Op const& op, int t)
        {
            u64 d = op.arg(2) % datasets, s = constant ? 0 : op.arg(3) % steps;
            auto it = stored.find({d, t, s});
            if (it == stored.end()) return;
            auto ref = std::any_cast<Ref<T>>(it->second);
            sim::probe("array read");
            u64 how = op.arg(4) % 3;
            if (how == 0)
            {
                auto a = constant ? lue::from_lue<T>(pathname(d, t), w.partition_shape(), id[d]) : lue::from_lue<T>(pathname(d, t), w.partition_shape(), id[d], (Index)s);
                w.put<T>(op.arg(1), std::move(a), std::move(ref));
            }
            else if (how == 1)
            {
                h5::Hyperslab slab{h5::Shape{(hsize_t)w.h, (hsize_t)w.w}};
                auto a = constant ? lue::from_lue<T>(pathname(d, t), slab, w.partition_shape(), id[d]) : lue::from_lue<T>(pathname(d, t), slab, w.partition_shape(), id[d], (Index)s);
                w.put<T>(op.arg(1), std::move(a), std::move(ref));
            }
            else
            {
                // part of the array
                World p;
                Count r0 = (Count)op.arg(5) % w.h, c0 = (Count)op.arg(6) % w.w;
                p.h = 1 + (Count)(op.arg(7) % (u64)(w.h - r0));
                p.w = 1 + (Count)((op.arg(7) >> 8) % (u64)(w.w - c0));
                p.ph = std::min(p.h, w.ph);
                p.pw = std::min(p.w, w.pw);
                p.label = w.label;
                h5::Hyperslab slab{h5::Offset{(hsize_t)r0, (hsize_t)c0}, h5::Count{(hsize_t)p.h, (hsize_t)p.w}};
                auto a = constant ? lue::from_lue<T>(pathname(d, t), slab, p.partition_shape(), id[d]) : lue::from_lue<T>(pathname(d, t), slab, p.partition_shape(), id[d], (Index)s);
                Ref<T> part;
                for (Count r = 0; r < p.h; ++r)
                    for (Count c = 0; c < p.w; ++c) part.push_back(ref[(std::size_t)((r0 + r) * w.w + c0 + c)]);
                p.check(Arr<T>{std::move(a), std::move(part), {}, w.label}, "part of array read");
                sim::probe("part of array read");
            }
        }
        // A failing disk may make an operation fail, but not unnoticed
        template<typename F>
        void guarded(F f)
        {
            if (given_up) return;
            try { f(); }
            catch (sim::Violation const& v)
            {
                if (!sim::faults_fired()) throw;
                if (v.cls != "assertion" && v.cls != "stuck" && !writing_failed()) throw;
                give_up();
            }
            catch (std::exception const&)
            {
                if (!sim::faults_fired()) throw;
                give_up();
            }
        }
        bool writing_failed()
        {
            for (auto& [d, ps] : pending)
                for (auto& p : ps)
                {
                    try { if (p.f.valid()) p.f.get(); }
                    catch (std::exception const&) { return true; }
                }
            return false;
        }
        void give_up()
        {
            given_up = true;
            sim::probe("failure noticed");
        }
        void step(Run&, Op const& op) override
        {
            guarded([&] { step_(op); });
        }
        void step_(Op const& op)
        {
            if (op.kind == "check" || op.kind == "drop" || op.kind == "new")
                if (op.arg(0) % 4 > 1) return;
            if (common_op(op)) return;
            if (op.kind == "write") with_io_type(op.arg(0), [&]<typename T>(T*, int t) { write<T>(op, t); });
            else if (op.kind == "read") with_io_type(op.arg(0), [&]<typename T>(T*, int t) { read<T>(op, t); });
            else if (op.kind == "wait") wait(op.arg(0) % datasets);
            else if (op.kind == "add")
                with_io_type(op.arg(0),
                    [&]<typename T>(T*, int)
                    {
                        auto* a = w.find<T>(op.arg(1));
                        if (!a) return;
                        T x = (T)(op.arg(3) % 100);
                        auto ref = a->ref;
                        if constexpr (std::is_integral_v<T>)
                            for (auto& v : ref) { if (v && (*v > 2000000000 || *v < -2000000000)) return; }
                        for (auto& v : ref) if (v) *v += x;
                        w.put<T>(op.arg(2), lue::value_policies::add(a->a, lue::Scalar<T>{x}), std::move(ref));
                    });
        }
        template<typename T>
        void check_file(u64 d, int t, u64 s, Ref<T> const& ref)
        {
            auto p = std::make_shared<ldm::Dataset>(ldm::open_dataset(file(d), H5F_ACC_RDONLY));
            std::vector<T> b(w.n());
            if (constant)
            {
                ldm::constant::RasterView<std::shared_ptr<ldm::Dataset>> v{p, "area", "area"};
                v.layer(io_name[t]).read(b.data());
            }
            else
            {
                ldm::variable::RasterView<std::shared_ptr<ldm::Dataset>> v{p, "area", "area"};
                auto l = v.layer(io_name[t]);
                l.read(h5::native_datatype<T>(), h5::Hyperslab{h5::Offset{0, (hsize_t)s, 0, 0}, h5::Count{1, 1, (hsize_t)w.h, (hsize_t)w.w}}, b.data());
            }
            for (std::size_t i = 0; i < b.size(); ++i)
                if (std::memcmp(&b[i], std::vector<T>{raw(ref[i])}.data(), sizeof(T)) != 0 && !(raw(ref[i]) == b[i]) && ref[i])
                    violate("stored", "dataset " + std::to_string(d) + ", array " + io_name[t] + ", time step " + std::to_string(s) + ": cell " + std::to_string(i) + " holds " + std::to_string(b[i]) + " instead of " + text(ref[i]));
        }
        void finish(Run&) override
        {
            guarded([&] { finish_(); });
            note();
        }
        void finish_()
        {
            for (u64 d = 0; d < datasets; ++d) wait(d);
            w.check_all("array at the end");
            hpx::sim::drain();
            for (u64 d = 0; d < datasets; ++d)
            {
                // After a failure nobody looked at (the array is gone) this is not specified
                if (!sim::faults_fired() && sim::fs_open_descriptors(file(d))) violate("open", "dataset " + std::to_string(d) + " is still open after everything finished");
            }
            sim::NoFaults quiet;
            for (auto& [k, v] : stored)
            {
                auto [d, t, s] = k;
                if (t == 0) check_file<I>(d, t, s, std::any_cast<Ref<I>>(v));
                else check_file<D>(d, t, s, std::any_cast<Ref<D>>(v));
            }
            if (sim::faults_fired()) sim::probe("fault without consequences");
            w.end();
        }
    };
}

int main(int argc, char** argv)
{
    return sim::main_(argc, argv, [](std::string const& p) -> sim::Harness* { return new fw::H{p}; });
}
