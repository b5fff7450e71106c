// Raster views: lue::data_model::{constant,variable}::RasterView on the real data model and HDF5, on the simulated disk.
#include "simkit.hpp"
#include "h5ledger.hpp"
#include "lue/data_model/hl.hpp"
#include "lue/object/dataset.hpp"
#include "lue/validate.hpp"
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <optional>
#include <variant>

namespace ldm = lue::data_model;
namespace h5 = lue::hdf5;
using sim::Op;
using sim::Rng;
using sim::Run;
using sim::Trace;
using sim::violate;
using u64 = std::uint64_t;
using i64 = std::int64_t;

namespace {
    constexpr int nr_types = 11;   // the last one is bool
    int const type_size[nr_types] = {1, 2, 4, 8, 1, 2, 4, 8, 4, 8, 1};
    char const* const type_name[nr_types] = {"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64", "bool"};
    template<typename F>
    auto with_type(int t, F f)
    {
        switch (t)
        {
            case 0: return f(std::uint8_t{});
            case 1: return f(std::uint16_t{});
            case 2: return f(std::uint32_t{});
            case 3: return f(std::uint64_t{});
            case 4: return f(std::int8_t{});
            case 5: return f(std::int16_t{});
            case 6: return f(std::int32_t{});
            case 7: return f(std::int64_t{});
            case 8: return f(float{});
            case 9: return f(double{});
            default: return f(bool{});
        }
    }
    template<typename T>
    h5::Datatype native_of()
    {
        if constexpr (std::is_same_v<T, bool>) return h5::native_datatype<std::uint8_t>();
        else return h5::native_datatype<T>();
    }
    h5::Datatype native(int t) { return with_type(t, [](auto x) { return native_of<decltype(x)>(); }); }
    u64 cell(int t, u64 r)
    {
        return with_type(t, [&](auto x) -> u64 {
            using T = decltype(x);
            T v;
            if constexpr (std::is_same_v<T, bool>) v = r & 1;
            else if constexpr (std::is_floating_point_v<T>)
            {
                switch (r % 9)
                {
                    case 0: v = T(0); break;
                    case 1: v = std::numeric_limits<T>::max(); break;
                    case 2: v = -std::numeric_limits<T>::infinity(); break;
                    case 3: v = std::numeric_limits<T>::denorm_min(); break;
                    case 4: v = T(-0.0); break;
                    case 5: v = std::numeric_limits<T>::quiet_NaN(); break;
                    default: v = T((double)(i64)(r >> 20) / 4096.0); break;
                }
            }
            else switch (r % 8)
            {
                case 0: v = 0; break;
                case 1: v = std::numeric_limits<T>::max(); break;
                case 2: v = std::numeric_limits<T>::min(); break;
                case 3: v = (T)(r >> 60); break;
                default: v = (T)(r >> 8); break;
            }
            u64 c = 0;
            std::memcpy(&c, &v, sizeof v);
            return c;
        });
    }
    bool same_cell(int t, u64 a, u64 b)
    {
        if (a == b) return true;
        if (t == 8 || t == 9)
            return with_type(t, [&](auto x) {
                auto y = x;
                std::memcpy(&x, &a, sizeof x);
                std::memcpy(&y, &b, sizeof y);
                return x != x && y != y;
            });
        return false;
    }

    struct Layer
    {
        int type = 0;
        bool has_nd = false;
        u64 nd = 0;
        std::vector<u64> cells;
        std::vector<char> known;
    };
    struct Raster
    {
        bool variable = false;
        u64 rows = 0, cols = 0, steps = 1;
        std::array<double, 4> box{};
        std::array<u64, 2> time{};
        int unit = 0;
        u64 nr_units = 1;
        std::map<std::string, Layer> layers;
    };
    struct Phen
    {
        bool has_id = false;
        u64 id = 0;
        std::map<std::string, Raster> rasters;
        std::set<std::string> others;   // property sets that are not rasters
    };

    char const* const phen_names[] = {"area", "catchment", "Ünï cödé", "x"};
    char const* const pset_names[] = {"area", "dem", "lue_value", "set 2"};
    char const* const layer_names[] = {"elevation", "soil", "Ünï", "lue_value", "x.y", "1", "space_grid", "a layer with a long name, longer than what fits in small buffers"};

    using DP = std::shared_ptr<ldm::Dataset>;
    using AnyView = std::variant<ldm::constant::RasterView<ldm::Dataset*>, ldm::constant::RasterView<DP>, ldm::variable::RasterView<ldm::Dataset*>, ldm::variable::RasterView<DP>>;
    struct Held
    {
        AnyView view;
        std::string phen, pset;
        std::set<std::string> seen;   // layers it knows of: those present when it was opened and those it added
    };

    std::vector<ldm::time::Unit> const units{ldm::time::Unit::second, ldm::time::Unit::minute, ldm::time::Unit::hour, ldm::time::Unit::day, ldm::time::Unit::week, ldm::time::Unit::month, ldm::time::Unit::year};

    struct H: sim::Harness
    {
        std::string profile;
        Run* run = nullptr;
        DP ds;
        bool exists = false, doubtful = false, broken = false, dead = false;
        int mode = 0;                 // 0 closed, 1 writing, 2 reading
        u64 ro_hash = 0;
        std::map<std::string, Phen> phens;
        std::vector<Held> held;
        std::uint32_t f0 = 0, r0 = 0;
        long c0 = 0;

        explicit H(std::string p): profile{std::move(p)} {}
        std::vector<std::string> profiles() const override { return {"R01"}; }
        std::string const path{"/simfs/rasters.lue"};

        h5::File::AccessPropertyList fapl()
        {
            h5::File::AccessPropertyList pl{};
            auto const& t = run->trace;
            if (t.c("latest")) pl.set_library_version_bounds(H5F_LIBVER_LATEST, H5F_LIBVER_LATEST);
            static std::size_t const nb[] = {1 << 20, 64, 512, 4096};
            if (t.c("cache")) H5Pset_cache(pl.id(), 0, 7, nb[t.c("cache") % 4], 0.75);
            static std::size_t const sv[] = {65536, 4096, 16, 512};
            if (t.c("sieve")) H5Pset_sieve_buf_size(pl.id(), sv[t.c("sieve") % 4]);
            if (t.c("evict")) H5Pset_evict_on_close(pl.id(), 1);
            return pl;
        }
        void begin(Run& r) override
        {
            run = &r;
            if (r.incarnation > 0) { dead = true; return; }
            h5ledger::without_accumulator(true);
            { auto warm = h5::native_datatype<int>(); (void)h5::create_datatype(4); }
            H5Eset_auto2(H5E_DEFAULT, std::getenv("SIM_H5ERR") ? (H5E_auto2_t)H5Eprint2 : nullptr, std::getenv("SIM_H5ERR") ? stderr : nullptr);
            h5ledger::start();
        }
        void restarted(Run&) override { dead = true; }

        // ------------------------------------------------------------------ one call
        enum Expect { ok, error, either };
        bool call(std::string const& what, Expect e, std::function<void()> const& real)   // true: it worked and what it did is known
        {
            f0 = sim::faults_fired();
            r0 = sim::faults_fired_reading();
            c0 = h5ledger::failed_closes();
            bool threw = false;
            std::string why;
            try
            {
                sim::InSut in;
                real();
            }
            catch (sim::Violation const&)
            {
                bool lost = mode == 1 && sim::faults_fired() != f0 && (h5ledger::failed_closes() != c0 || sim::faults_fired_reading() != r0);
                if (!broken && !doubtful && !lost) throw;
                threw = true;
            }
            catch (std::exception const& x) { threw = true; why = x.what(); }
            bool faults = sim::faults_fired() != f0, closes = h5ledger::failed_closes() != c0, reads = sim::faults_fired_reading() != r0;
            if (!doubtful && !broken)
            {
                if (threw && e == ok && !faults) violate("unexpected-error", what + " failed without a storage failure: " + why);
                if (!threw && e == error) violate("accepted", what + " must be reported as an error but was accepted");
            }
            if (faults)
            {
                if (mode == 2) { if (threw || closes || reads) broken = true; }
                else if (threw || closes || reads) doubtful = true;
                sim::probe(threw ? "call failed with fault" : "call succeeded despite fault");
            }
            else if (threw) sim::probe(e == error ? "call rejected" : "call failed after fault");
            run->outcome(threw ? sim::oc_threw : sim::oc_ok);
            return !threw && !doubtful && !broken;
        }
        void skip() { run->outcome(sim::oc_skipped); }
        bool usable() const { return mode && !doubtful && !broken && ds; }
        bool writable() const { return usable() && mode == 1; }

        // ------------------------------------------------------------------ choices
        struct At { std::string phen, pset; Raster* r = nullptr; Phen* p = nullptr; };
        std::optional<At> pick(u64 a)
        {
            std::vector<At> c;
            for (auto& [pn, p] : phens)
                for (auto& [sn, r] : p.rasters) c.push_back({pn, sn, &r, &p});
            if (c.empty()) return {};
            return c[a % c.size()];
        }
        AnyView open_view(std::string const& phen, std::string const& pset, bool variable, u64 how)
        {
            if (how % 4 == 0) sim::probe("view opened by constructor");
            if (variable)
            {
                switch (how % 4)
                {
                    case 0: return ldm::variable::RasterView<DP>{ds, phen, pset};
                    case 1: return ldm::variable::RasterView<ldm::Dataset*>{ds.get(), phen, pset};
                    case 2: return ldm::variable::open_raster_view(ds, phen, pset);
                    default: return ldm::variable::open_raster_view(ds.get(), phen, pset);
                }
            }
            switch (how % 4)
            {
                case 0: return ldm::constant::RasterView<DP>{ds, phen, pset};
                case 1: return ldm::constant::RasterView<ldm::Dataset*>{ds.get(), phen, pset};
                case 2: return ldm::constant::open_raster_view(ds, phen, pset);
                default: return ldm::constant::open_raster_view(ds.get(), phen, pset);
            }
        }

        // ------------------------------------------------------------------ oracles
        template<typename V>
        static constexpr bool is_variable = std::is_same_v<V, ldm::variable::RasterView<ldm::Dataset*>> || std::is_same_v<V, ldm::variable::RasterView<DP>>;

        void check_view(AnyView& any, std::string const& phen, std::string const& pset, std::set<std::string> const& seen)
        {
            auto& p = phens.at(phen);
            auto& m = p.rasters.at(pset);
            std::string who = "raster view " + phen + "/" + pset;
            std::visit([&](auto& v) {
                using V = std::decay_t<decltype(v)>;
                if (&*v != ds.get()) violate("view", who + " views another dataset");
                if (v.phenomenon_name() != phen || v.property_set_name() != pset) violate("view", who + " reports other names");
                if (v.object_id() != p.id) violate("object-id", who + " has object id " + std::to_string(v.object_id()) + " instead of " + std::to_string(p.id));
                if (v.space_box() != m.box) violate("space-box", who + " reports another bounding box");
                if (v.grid_shape() != h5::Shape{m.rows, m.cols})
                    violate("grid-shape", who + " reports another grid shape than " + std::to_string(m.rows) + " by " + std::to_string(m.cols));
                if constexpr (is_variable<V>)
                {
                    if (v.time_box() != m.time) violate("time-box", who + " reports another time box");
                    if (v.nr_time_steps() != m.steps) violate("time-steps", who + " reports " + std::to_string(v.nr_time_steps()) + " time steps instead of " + std::to_string(m.steps));
                }
                std::vector<std::string> names = v.layer_names();
                if (v.nr_layers() != names.size() || std::set<std::string>(names.begin(), names.end()) != seen || names.size() != seen.size())
                    violate("layers", who + " lists " + std::to_string(names.size()) + " layers instead of " + std::to_string(seen.size()));
                for (auto n : layer_names)
                    if (v.contains(n) != (seen.count(n) != 0)) violate("layers", who + (seen.count(n) ? " misses layer " : " contains layer ") + n);
                // names that resemble those of layers
                std::set<std::string> others{"", " "};
                for (auto const& n : seen)
                {
                    std::string o = n;
                    others.insert({n + "2", n + "_", "_" + n, n + n, n.substr(0, n.size() / 2), n.substr(n.size() / 2)});
                    for (auto& c : o) c = (char)std::toupper((unsigned char)c);
                    others.insert(o);
                    o = n;
                    if (!o.empty()) o.back() ^= 1;
                    others.insert(o);
                }
                for (auto const& n : others)
                    if (!seen.count(n) && v.contains(n)) violate("layers", who + " contains layer " + n);
            }, any);
        }
        // read a window: all time steps in [s0, s1), rows and columns with a stride
        struct Window { u64 s0, sn, r0, rn, rs, c0, cn, cs; };
        static Window whole(Raster const& m) { return {0, m.steps, 0, m.rows, 1, 0, m.cols, 1}; }
        static Window some(Raster const& m, u64 a, u64 b)
        {
            Window w;
            w.s0 = a % m.steps; w.sn = 1 + (a >> 8) % (m.steps - w.s0);
            w.rs = 1 + (a >> 16) % 3 * ((a >> 40) % 2); w.cs = 1 + (a >> 24) % 3 * ((a >> 42) % 2);
            w.r0 = b % m.rows; w.rn = 1 + (b >> 10) % ((m.rows - w.r0 - 1) / w.rs + 1);
            w.c0 = (b >> 20) % m.cols; w.cn = 1 + (b >> 30) % ((m.cols - w.c0 - 1) / w.cs + 1);
            return w;
        }
        static h5::Hyperslab slab(Raster const& m, Window const& w)
        {
            if (m.variable) return h5::Hyperslab{h5::Offset{0, w.s0, w.r0, w.c0}, h5::Stride{1, 1, w.rs, w.cs}, h5::Count{1, w.sn, w.rn, w.cn}};
            return h5::Hyperslab{h5::Offset{w.r0, w.c0}, h5::Stride{w.rs, w.cs}, h5::Count{w.rn, w.cn}};
        }
        template<typename F>
        static void each(Raster const& m, Window const& w, F f)
        {
            std::size_t k = 0;
            for (u64 s = 0; s < w.sn; ++s)
                for (u64 r = 0; r < w.rn; ++r)
                    for (u64 c = 0; c < w.cn; ++c) f(((w.s0 + s) * m.rows + w.r0 + r * w.rs) * m.cols + w.c0 + c * w.cs, k++);
        }
        static std::vector<std::string> const& styles()
        {
            static std::vector<std::string> s{"whole", "hyperslab", "hyperslab with type", "objects"};
            return s;
        }
        template<typename L>
        void check_layer_info(L& layer, Raster const& m, Layer const& l, std::string const& who)
        {
            if (!(layer.file_datatype() == h5::file_datatype(native(l.type)))) violate("type", who + " is stored with another type than that of " + type_name[l.type]);
            if (!(layer.memory_datatype() == native(l.type))) violate("type", who + " is delivered with another type than " + type_name[l.type]);
            h5::Shape want = m.variable ? h5::Shape{1, m.steps, m.rows, m.cols} : h5::Shape{m.rows, m.cols};
            if (static_cast<h5::Dataset&>(layer).shape() != want) violate("shape", who + " has another shape");
            if (l.has_nd)
            {
                if (!layer.has_no_data_value()) violate("no-data", who + " has lost its no-data value");
                u64 got = 0;
                with_type(l.type, [&](auto x) {
                    x = layer.template no_data_value<decltype(x)>();
                    std::memcpy(&got, &x, sizeof x);
                });
                if (!same_cell(l.type, got, l.nd)) violate("no-data", who + " has another no-data value");
            }
        }
        template<typename L>
        void read_layer(L& layer, Raster const& m, Layer const& l, u64 how, u64 a, u64 b, std::string const& who)
        {
            check_layer_info(layer, m, l, who);
            int es = type_size[l.type];
            Window w = how % 4 == 0 || how % 4 == 3 ? whole(m) : some(m, a, b);
            std::size_t n = w.sn * w.rn * w.cn;
            std::vector<unsigned char> buf(n * es + 16, 0xA5);
            try
            {
            switch (how % 4)
            {
                case 0: layer.read(buf.data()); break;
                case 1: layer.read(slab(m, w), buf.data()); break;
                case 2: layer.read(native(l.type), slab(m, w), buf.data()); break;
                case 3:
                    if constexpr (std::is_same_v<L, ldm::variable::RasterView<DP>::Layer>)
                    {
                        if (layer.nr_arrays() != 1 || layer.array_shape() != h5::Shape{m.steps, m.rows, m.cols} || layer.rank() != 3)
                            violate("shape", who + " has another number or shape of arrays");
                        if (a % 2) layer.read(0, buf.data());
                        else layer.read(lue::data_model::IndexRange{0, 1}, buf.data());
                    }
                    else layer.read(h5::create_dataspace(h5::Shape{m.rows, m.cols}), buf.data());
                    break;
            }
            }
            catch (sim::Violation const&) { throw; }
            catch (std::exception const&)
            {
                // a layer without a single value may not be readable
                if (sim::faults_fired() != f0 || std::find(l.known.begin(), l.known.end(), 1) != l.known.end()) throw;
                sim::probe("reading cells without value failed");
                return;
            }
            each(m, w, [&](std::size_t at, std::size_t k) {
                if (!l.known[at]) return;
                u64 got = 0;
                std::memcpy(&got, &buf[k * es], es);
                if (!same_cell(l.type, got, l.cells[at]))
                    violate("wrong-value", who + " (" + type_name[l.type] + ", read by " + styles()[how % 4] + "): step " + std::to_string(at / (m.rows * m.cols)) + " row " + std::to_string(at / m.cols % m.rows) +
                            " column " + std::to_string(at % m.cols) + " is " + std::to_string(got) + " instead of " + std::to_string(l.cells[at]) + " (as bits)");
            });
            for (std::size_t i = n * es; i < buf.size(); ++i)
                if (buf[i] != 0xA5) violate("overrun", who + ": more was delivered than selected");
        }
        void verify(u64 how)
        {
            ldm::Dataset const& cds = *ds;
            auto& ps = cds.phenomena();
            for (auto n : phen_names)
                if (ps.contains(n) != (phens.count(n) != 0)) violate("names", std::string("phenomenon ") + n + (phens.count(n) ? " is missing" : " was never added"));
            for (auto& [pn, p] : phens)
            {
                auto& sets = ps[pn].property_sets();
                for (auto n : pset_names)
                    if (sets.contains(n) != (p.rasters.count(n) || p.others.count(n))) violate("names", pn + "/" + n + (sets.contains(n) ? " was never added" : " is missing"));
                for (auto& [sn, m] : p.rasters)
                {
                    std::set<std::string> all;
                    for (auto& [n, l] : m.layers) all.insert(n);
                    auto v = open_view(pn, sn, m.variable, how);
                    check_view(v, pn, sn, all);
                    if (m.variable)
                    {
                        ldm::Clock want{units[m.unit], (ldm::time::TickPeriodCount)m.nr_units};
                        if (!(sets[sn].time_domain().clock() == want)) violate("clock", pn + "/" + sn + " has another clock");
                    }
                    for (auto& [n, l] : m.layers)
                        std::visit([&, name = n, &lay = l](auto& vw) {
                            auto layer = vw.layer(name);
                            read_layer(layer, m, lay, how, how >> 7, how >> 13, "layer " + pn + "/" + sn + "/" + name);
                        }, v);
                }
            }
        }
        void check_presence(u64)
        {
            ldm::Dataset const& cds = *ds;
            for (auto& [pn, p] : phens)
            {
                for (auto& [sn, m] : p.rasters)
                    if (ldm::constant::contains_raster(cds, pn, sn) != !m.variable || ldm::variable::contains_raster(cds, pn, sn) != m.variable)
                        violate("contains-raster", pn + "/" + sn + ", a " + (m.variable ? "variable" : "constant") + " raster, is not reported as such");
                for (auto& sn : p.others)
                    if (ldm::constant::contains_raster(cds, pn, sn) || ldm::variable::contains_raster(cds, pn, sn))
                        violate("contains-raster", pn + "/" + sn + " is not a raster but reported as one");
            }
        }

        // ------------------------------------------------------------------ operations
        void close()
        {
            if (!mode) return;
            f0 = sim::faults_fired();
            {
                sim::InSut in;
                held.clear();
                ds.reset();
            }
            bool faulty = sim::faults_fired() != f0;
            if (faulty && mode == 1) doubtful = true;
            if (h5ledger::outstanding() || h5ledger::over_released())
                violate("not-released", "after dropping every view and the dataset " + std::to_string(h5ledger::outstanding()) + " references are still held (" + h5ledger::describe() + ")");
            if (sim::fs_open_descriptors() != 0)
            {
                if (!sim::faults_fired()) violate("not-released", "the dataset is still open after dropping every view and the dataset");
                dead = true;
            }
            if (mode == 2)
            {
                if (sim::fs_write_calls() != ro_hash) violate("modified-by-reading", "a dataset opened for reading changed on storage");
            }
            if (doubtful) exists = false;
            mode = 0;
            doubtful = broken = false;
        }
        void op_new()
        {
            close();
            if (dead) return;
            phens.clear();
            exists = false;
            mode = 1;
            if (!call("creating a dataset", ok, [&] { ds = std::make_shared<ldm::Dataset>(ldm::create_dataset(path, "", fapl())); }) && !ds) { mode = 0; doubtful = false; if (sim::fs_open_descriptors()) dead = true; return; }
            exists = true;
        }
        void op_open(u64 how)
        {
            if (mode || !exists) { skip(); return; }
            mode = how % 3 == 0 ? 2 : 1;
            ro_hash = sim::fs_write_calls();
            call("opening a dataset", ok, [&] { ds = std::make_shared<ldm::Dataset>(ldm::open_dataset(path, mode == 1 ? H5F_ACC_RDWR : H5F_ACC_RDONLY, fapl())); });
            if (!ds)
            {
                if (mode == 1) exists = false;
                mode = 0;
                doubtful = broken = false;
                if (sim::fs_open_descriptors()) dead = true;
            }
        }
        void op_phen(Op const& op)
        {
            if (!writable()) { skip(); return; }
            std::string n = phen_names[op.arg(0) % 4];
            if (phens.count(n)) { skip(); return; }
            bool with_id = op.arg(1) % 3 != 0;
            bool with_set = op.arg(3) % 3 == 0;
            u64 id = op.arg(2) % 4 == 0 ? 5 : op.arg(2);
            std::string sn = pset_names[op.arg(4) % 4];
            if (call("adding a phenomenon", ok, [&] {
                    auto& p = ds->add_phenomenon(n);
                    if (with_id)
                    {
                        ldm::ID i = id;
                        p.object_id().expand(1);
                        p.object_id().write(0, &i);
                    }
                    if (with_set) p.property_sets().add(sn);
                }))
            {
                auto& p = phens[n];
                p.has_id = with_id;
                p.id = id;
                if (with_set) p.others.insert(sn);
            }
        }
        static double coordinate(u64 r)
        {
            switch (r % 5)
            {
                case 0: return 0.0;
                case 1: return (double)(i64)(r >> 30);
                case 2: return -(double)(r >> 40) / 7.0;
                case 3: return 1e-310;
                default: return (double)(r >> 50);
            }
        }
        void op_create(Op const& op)
        {
            if (!usable()) { skip(); return; }
            std::string pn = phen_names[op.arg(0) % 4], sn = pset_names[(op.arg(0) >> 8) % 4];
            Raster m;
            m.variable = op.arg(1) % 2;
            static u64 const big = run->trace.c("large") ? 70 : 12;
            m.rows = 1 + (op.arg(2) % big);
            m.cols = 1 + (op.arg(2) >> 20) % big;
            m.steps = m.variable ? 1 + op.arg(3) % 6 : 1;
            for (int i = 0; i < 4; ++i) m.box[i] = coordinate(op.arg(4) * (2 * i + 3));
            m.time = {op.arg(5) % 100000, op.arg(5) % 100000 + (op.arg(5) >> 30)};
            m.unit = (int)(op.arg(6) % units.size());
            m.nr_units = 1 + (op.arg(6) >> 8) % 1000;
            bool taken = phens.count(pn) && (phens[pn].rasters.count(sn) || phens[pn].others.count(sn));
            Expect e = mode == 2 || taken ? error : ok;
            std::unique_ptr<Held> h;
            bool worked = call("creating a raster view " + pn + "/" + sn, e, [&] {
                h5::Shape shape{m.rows, m.cols};
                auto make = [&](auto dp) -> AnyView {
                    if (m.variable)
                        return ldm::variable::create_raster_view(dp, pn, sn, ldm::Clock{units[m.unit], (ldm::time::TickPeriodCount)m.nr_units}, m.steps, {m.time[0], m.time[1]}, shape, m.box);
                    return ldm::constant::create_raster_view(dp, pn, sn, shape, m.box);
                };
                h = std::make_unique<Held>(Held{op.arg(1) / 2 % 2 ? make(ds) : make(ds.get()), pn, sn, {}});
            });
            if (worked)
            {
                auto& p = phens[pn];
                if (!p.has_id) { p.has_id = true; p.id = 5; std::visit([&](auto& v) { p.id = v.object_id(); }, h->view); }
                p.rasters[sn] = m;
                call("looking at a created view", ok, [&] { check_view(h->view, pn, sn, {}); });
                keep(std::move(*h));
            }
            else
            {
                sim::InSut in;
                h.reset();
            }
        }
        void keep(Held&& h)
        {
            sim::InSut in;
            if (held.size() > 5) held.erase(held.begin());
            held.push_back(std::move(h));
        }
        void op_view(Op const& op)
        {
            if (!usable()) { skip(); return; }
            if (op.arg(5) % 8 == 0)
            {
                // not there
                std::string pn = phen_names[op.arg(0) % 4], sn = pset_names[op.arg(1) % 4];
                if (phens.count(pn) && (phens[pn].rasters.count(sn) || phens[pn].others.count(sn))) { skip(); return; }
                call("opening a raster view that does not exist", error, [&] { open_view(pn, sn, op.arg(2) % 2, op.arg(3)); });
                call("asking for a raster that cannot exist", error, [&] {
                    if (op.arg(2) % 2) ldm::variable::contains_raster(*ds, pn, sn);
                    else ldm::constant::contains_raster(*ds, pn, sn);
                });
                return;
            }
            auto at = pick(op.arg(0));
            if (!at) { skip(); return; }
            std::unique_ptr<Held> h;
            std::set<std::string> all;
            for (auto& [n, l] : at->r->layers) all.insert(n);
            bool worked = call("opening raster view " + at->phen + "/" + at->pset, ok, [&] {
                h = std::make_unique<Held>(Held{open_view(at->phen, at->pset, at->r->variable, op.arg(1)), at->phen, at->pset, all});
                check_view(h->view, at->phen, at->pset, all);
            });
            if (worked) keep(std::move(*h));
            else { sim::InSut in; h.reset(); }
        }
        void op_layer(Op const& op)
        {
            if (!usable() || held.empty()) { skip(); return; }
            auto& h = held[op.arg(0) % held.size()];
            auto& m = phens[h.phen].rasters[h.pset];
            std::string n = layer_names[op.arg(1) % 8];
            Layer l;
            l.type = (int)(op.arg(2) % nr_types);
            l.has_nd = !m.variable && op.arg(3) % 2;
            l.nd = cell(l.type, op.arg(4));
            bool taken = m.layers.count(n) != 0;
            bool typed = op.arg(3) / 2 % 3 != 0;   // through the template
            if (!typed && l.has_nd && l.type == 10) typed = true;
            l.cells.assign(m.steps * m.rows * m.cols, l.nd);
            l.known.assign(l.cells.size(), l.has_nd);
            bool worked = call("adding layer " + n, mode == 2 || taken ? error : ok, [&] {
                std::visit([&](auto& v) {
                    using V = std::decay_t<decltype(v)>;
                    auto layer = with_type(l.type, [&](auto x) {
                        using T = decltype(x);
                        if constexpr (is_variable<V>) return typed ? v.template add_layer<T>(n) : v.add_layer(n, native(l.type));
                        else
                        {
                            std::memcpy(&x, &l.nd, sizeof x);
                            if (typed) return l.has_nd ? v.template add_layer<T>(n, x) : v.template add_layer<T>(n);
                            return v.add_layer(n, native(l.type), l.has_nd ? (void const*)&l.nd : nullptr);
                        }
                    });
                    // the layer returned is the one added
                    read_layer(layer, m, l, op.arg(5), op.arg(6), op.arg(5), "layer " + n + " just added");
                    if (op.arg(6) % 2) write_layer(layer, m, l, op.arg(6), op.arg(4), op.arg(5));
                }, h.view);
            });
            if (worked)
            {
                m.layers[n] = l;
                h.seen.insert(n);
            }
        }
        template<typename L>
        void write_layer(L& layer, Raster const& m, Layer& l, u64 how, u64 a, u64 b)
        {
            int es = type_size[l.type];
            bool constant = how >> 33 & 1 && (how >> 35) % 5 == 0;
            Window w = how % 4 == 0 || how % 4 == 3 ? whole(m) : some(m, a, b);
            std::vector<unsigned char> buf(w.sn * w.rn * w.cn * es + 8);
            std::vector<u64> val(w.sn * w.rn * w.cn);
            for (std::size_t k = 0; k < val.size(); ++k)
            {
                val[k] = cell(l.type, constant ? a : sim::mix(a ^ how, k));
                std::memcpy(&buf[k * es], &val[k], es);
            }
            switch (how % 4)
            {
                case 0: layer.write(buf.data()); break;
                case 1: layer.write(slab(m, w), buf.data()); break;
                case 2: layer.write(h5::create_dataspace(h5::Shape{w.sn, w.rn, w.cn}), slab(m, w), buf.data()); break;
                case 3:
                    if constexpr (std::is_same_v<L, ldm::variable::RasterView<DP>::Layer>)
                    {
                        if (a % 2) layer.write(0, buf.data());
                        else layer.write(lue::data_model::IndexRange{0, 1}, buf.data());
                    }
                    else layer.write(h5::create_dataspace(h5::Shape{m.rows, m.cols}), buf.data());
                    break;
            }
            each(m, w, [&](std::size_t at, std::size_t k) {
                l.cells[at] = val[k];
                l.known[at] = 1;
            });
        }
        void op_io(Op const& op, bool write)
        {
            if (!usable() || held.empty()) { skip(); return; }
            auto& h = held[op.arg(0) % held.size()];
            auto& m = phens[h.phen].rasters[h.pset];
            if (op.arg(1) % 16 == 0)
            {
                std::string n = layer_names[op.arg(2) % 8];
                if (h.seen.count(n)) { skip(); return; }
                call("opening a layer the view does not contain", error, [&] { std::visit([&](auto& v) { (void)v.layer(n); }, h.view); });
                return;
            }
            if (h.seen.empty()) { skip(); return; }
            auto it = h.seen.begin();
            std::advance(it, op.arg(1) % h.seen.size());
            std::string n = *it;
            Layer l = m.layers.at(n);
            bool worked = call((write ? "writing layer " : "reading layer ") + n, write && mode == 2 ? error : ok, [&] {
                std::visit([&](auto& v) {
                    auto layer = v.layer(n);
                    if (write) write_layer(layer, m, l, op.arg(2), op.arg(3), op.arg(4));
                    else read_layer(layer, m, l, op.arg(2), op.arg(3), op.arg(4), "layer " + h.phen + "/" + h.pset + "/" + n);
                }, h.view);
            });
            if (worked && write) m.layers[n] = l;
        }
        void op_copy(Op const& op)   // views can be copied and moved like values
        {
            if (!usable() || held.empty()) { skip(); return; }
            std::size_t i = op.arg(0) % held.size(), j = op.arg(1) % held.size();
            call("copying and moving views", ok, [&] {
                switch (op.arg(2) % 4)
                {
                    case 0: { Held c{held[i]}; held[j] = c; break; }
                    case 1: { Held c{held[i]}; Held d{std::move(c)}; held[j] = std::move(d); break; }
                    case 2: if (i != j) std::swap(held[i], held[j]); break;
                    case 3: { auto x = held[i]; held.erase(held.begin() + (long)i); if (op.arg(3) % 2) held.push_back(x); break; }
                }
                for (auto& h : held) check_view(h.view, h.phen, h.pset, h.seen);
            });
        }
        void op_probe(Op const& op)
        {
            if (mode == 1 || !exists || broken || doubtful || (mode && run->trace.c("evict"))) { skip(); return; }
            auto at = pick(op.arg(0));
            if (!at) { skip(); return; }
            std::string n = layer_names[op.arg(1) % 8], pn = at->phen, sn = at->pset;
            bool variable = at->r->variable, there = at->r->layers.count(n) != 0;
            if (op.arg(2) % 8 == 0) { pn = "no such phenomenon"; there = false; }
            else if (op.arg(2) % 8 == 1) { sn = "no such set"; there = false; }
            std::string file = path;
            if (op.arg(2) % 8 == 2) { file += "x"; there = false; }
            int m0 = mode;
            if (!mode) mode = 2;
            bool b0 = broken;
            call("probing a stored raster", there ? ok : error, [&] {
                auto [id, shape, type] = variable ? ldm::variable::probe_raster(file, pn, sn, n) : ldm::constant::probe_raster(file, pn, sn, n);
                auto& l = at->r->layers.at(n);
                if (id != at->p->id) violate("probe", "probing a raster gives another object id");
                if (shape != h5::Shape{at->r->rows, at->r->cols}) violate("probe", "probing a raster gives another shape");
                if (!(type == h5::file_datatype(native(l.type)))) violate("probe", "probing a raster gives another type");
            });
            if (!m0)
            {
                mode = 0;
                broken = b0;
                if (sim::fs_open_descriptors()) { if (!sim::faults_fired()) violate("not-released", "the dataset is still open after probing a raster"); dead = true; }
            }
        }
        void op_path(Op const& op)
        {
            // array path names are taken apart into what they were composed of
            static char const* const dirs[] = {"rasters.lue", "/simfs/rasters.lue", "a/b/rasters.lue", "./rasters", "/x"};
            std::string d = dirs[op.arg(0) % 5], pn = phen_names[op.arg(1) % 4], sn = pset_names[op.arg(2) % 4], n = layer_names[op.arg(3) % 8];
            call("parsing an array path name", ok, [&] {
                if (lue::parse_array_pathname(d + "/" + pn + "/" + sn + "/" + n) != std::array<std::string, 4>{d, pn, sn, n}) violate("path-name", "array path name under " + d + " is taken apart wrongly");
                if (lue::parse_array_pathname3(pn + "/" + sn + "/" + n) != std::array<std::string, 3>{pn, sn, n}) violate("path-name", "array path name " + pn + "/" + sn + "/" + n + " is taken apart wrongly");
            });
            call("parsing an incomplete array path name", error, [&] { lue::parse_array_pathname(pn + "/" + sn + "/" + n); });
            call("parsing an incomplete array path name", error, [&] { lue::parse_array_pathname3(op.arg(4) % 2 ? sn + "/" + n : d + "/" + pn + "/" + sn + "/" + n + "/x"); });
        }
        void op_valid()
        {
            if (!usable()) { skip(); return; }
            for (auto& [pn, p] : phens)
                if (!p.others.empty()) { skip(); return; }
            call("validating a dataset with rasters", ok, [&] {
                h5::Issues issues;
                ldm::validate(*ds, issues);
                if (issues.errors_found())
                    violate("invalid", "a dataset with rasters only is found invalid: " + issues.errors().front().message());
            });
        }

        void step(Run& r, Op const& op) override
        {
            run = &r;
            if (!r.real || dead) return;
            auto const& k = op.kind;
            if (k == "new") op_new();
            else if (k == "open") op_open(op.arg(0));
            else if (k == "close") { close(); run->outcome(sim::oc_ok); }
            else if (k == "reopen") { close(); if (!dead) op_open(op.arg(0)); }
            else if (k == "phen") op_phen(op);
            else if (k == "create") op_create(op);
            else if (k == "view") op_view(op);
            else if (k == "layer") op_layer(op);
            else if (k == "write") op_io(op, true);
            else if (k == "read") op_io(op, false);
            else if (k == "copy") op_copy(op);
            else if (k == "probe") op_probe(op);
            else if (k == "path") op_path(op);
            else if (k == "valid") op_valid();
            else if (k == "presence") { if (usable()) call("asking for rasters", ok, [&] { check_presence(op.arg(0)); }); else skip(); }
            else if (k == "verify") { if (usable()) call("reading everything", ok, [&] { verify(op.arg(0)); }); else skip(); }
            sim::log_event(sim::hash_str(k));
            u64 h = (u64)mode;
            for (auto& [pn, p] : phens)
                for (auto& [sn, m] : p.rasters) h = sim::mix(h, m.rows * 100 + m.cols + m.layers.size() * 10000 + m.variable * 7);
            sim::state(sim::mix(h, held.size()));
        }
        void finish(Run& r) override
        {
            run = &r;
            if (dead) return;
            sim::NoFaults nf;
            close();
            if (dead || !exists) return;
            mode = 2;
            f0 = sim::faults_fired();
            ro_hash = sim::fs_write_calls();
            try
            {
                ds = std::make_shared<ldm::Dataset>(ldm::open_dataset(path, H5F_ACC_RDONLY, fapl()));
                verify(4);
                check_presence(0);
            }
            catch (sim::Violation const&) { throw; }
            catch (std::exception const& x) { violate("unexpected-error", std::string("final verification failed without a storage failure: ") + x.what()); }
            close();
            sim::probe("final verification");
        }
        void generate(Rng& g, Trace& t) override
        {
            t.cfg["latest"] = 0;
            t.cfg["cache"] = g.below(4);
            t.cfg["sieve"] = g.below(4);
            t.cfg["evict"] = g.below(4) == 0;
            t.cfg["large"] = g.below(6) == 0;
            auto add = [&](char const* k) {
                Op o;
                o.kind = k;
                for (int i = 0; i < 7; ++i) o.a.push_back(g.next() >> 1);
                t.ops.push_back(o);
            };
            struct W { char const* k; int w; };
            std::vector<W> w{{"create", 9}, {"phen", 2}, {"view", 9}, {"layer", 22}, {"write", 24}, {"read", 14}, {"reopen", 7}, {"close", 2}, {"open", 3}, {"copy", 5}, {"probe", 6}, {"path", 1}, {"valid", 2}, {"presence", 5}, {"verify", 4}};
            for (auto& x : w)
                if (g.chance(0.1) && x.w < 10) x.w = 0;
            add("new");
            if (g.chance(0.4)) add("phen");
            for (int i = 1 + (int)g.below(3); i-- > 0;) add("create");
            for (int i = (int)g.below(4); i-- > 0;) add("layer");
            int total = 0, n = (int)g.range(10, g.chance(0.3) ? 100 : 45);
            for (auto& x : w) total += x.w;
            for (int i = 0; i < n; ++i)
            {
                int k = (int)g.below((u64)total);
                for (auto& x : w)
                {
                    if (k < x.w)
                    {
                        add(x.k);
                        if ((t.ops.back().kind == "open" || t.ops.back().kind == "reopen") && g.chance(0.8)) add("view");
                        break;
                    }
                    k -= x.w;
                }
            }
            auto fault = [&](std::uint32_t cls, std::uint32_t kind, int far, std::uint32_t count) {
                sim::Fault f;
                f.op = (std::uint32_t)(1 + g.below(t.ops.size() - 1));
                f.nth = (std::uint32_t)g.below((u64)far);
                f.cls = cls;
                f.kind = kind;
                f.arg = (std::uint32_t)g.below(5000);
                f.count = count;
                t.faults.push_back(f);
            };
            for (int i = g.chance(0.6) ? (int)g.below(5) : 0; i-- > 0;)
                fault(g.chance(0.5) ? sim::fc_read : sim::fc_write, g.chance(0.5) ? sim::fk_short : sim::fk_eintr, 6, 1 + (std::uint32_t)g.below(4));
            if (g.chance(0.35))
                for (int i = 1 + (int)g.below(2); i-- > 0;)
                {
                    auto cnt = g.chance(0.7) ? 1 : 1 + (std::uint32_t)g.below(20);
                    int far = g.chance(0.5) ? 4 : 30;
                    switch (g.below(6))
                    {
                        case 0: case 1: fault(sim::fc_read, sim::fk_eio, far, cnt); break;
                        case 2: fault(sim::fc_write, sim::fk_eio, far, cnt); break;
                        case 3: fault(sim::fc_write | sim::fc_trunc, sim::fk_enospc, far, 1000); break;
                        case 4: fault(sim::fc_write, sim::fk_torn, far, cnt); break;
                        case 5: fault(sim::fc_open, g.chance(0.5) ? sim::fk_eacces : sim::fk_emfile, 1, cnt); break;
                    }
                }
        }
    };
}  // namespace

int main(int argc, char** argv)
{
    return sim::main_(argc, argv, [](std::string const& p) -> sim::Harness* { return new H{p}; });
}
