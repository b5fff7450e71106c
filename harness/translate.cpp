// Translating other formats to LUE and back: lue::utility's format translators on the real GDAL, data model and HDF5, on the
// simulated disk.
#include "simkit.hpp"
#include "gdal_seam.hpp"
#include "h5ledger.hpp"
#include "lue/data_model/hl.hpp"
#include "lue/gdal.hpp"
#include "lue/translate/format/gdal.hpp"
#include "lue/translate/format/lue.hpp"
#include "lue/validate.hpp"
#include <cpl_conv.h>
#include <cpl_error.h>
#include <cmath>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <vector>

namespace ldm = lue::data_model;
namespace lh5 = lue::hdf5;
namespace lg = lue::gdal;
namespace lu = lue::utility;
using sim::Op;
using sim::Rng;
using sim::Run;
using sim::Trace;
using sim::violate;
using u64 = std::uint64_t;
using i64 = std::int64_t;

namespace {
    struct Type { GDALDataType id; int size; char const* name; };
    constexpr int nr_types = 10;
    Type const types[nr_types] = {
        {GDT_Byte, 1, "uint8"}, {GDT_UInt16, 2, "uint16"}, {GDT_Int16, 2, "int16"}, {GDT_UInt32, 4, "uint32"}, {GDT_Int32, 4, "int32"},
        {GDT_UInt64, 8, "uint64"}, {GDT_Int64, 8, "int64"}, {GDT_Float32, 4, "float32"}, {GDT_Float64, 8, "float64"}, {GDT_Int8, 1, "int8"}};
    template<typename F>
    auto with_type(int t, F f)
    {
        switch (t)
        {
            case 0: return f(std::uint8_t{});
            case 1: return f(std::uint16_t{});
            case 2: return f(std::int16_t{});
            case 3: return f(std::uint32_t{});
            case 4: return f(std::int32_t{});
            case 5: return f(std::uint64_t{});
            case 6: return f(std::int64_t{});
            case 7: return f(float{});
            case 8: return f(double{});
            default: return f(std::int8_t{});
        }
    }
    using Bytes = std::vector<unsigned char>;
    template<typename T>
    T some_value(u64 r)
    {
        if constexpr (std::is_floating_point_v<T>)
            switch (r % 8)
            {
                case 0: return T(0);
                case 1: return std::numeric_limits<T>::max();
                case 2: return std::numeric_limits<T>::lowest();
                case 3: return std::numeric_limits<T>::infinity();
                case 4: return T(-1) / T(3);
                case 5: return std::numeric_limits<T>::quiet_NaN();
                default: return T((double)(i64)(r >> 20) / 4096.0);
            }
        else
            switch (r % 8)
            {
                case 0: return 0;
                case 1: return std::numeric_limits<T>::max();
                case 2: return std::numeric_limits<T>::min();
                case 3: return (T)(r >> 60);
                default: return (T)(r >> 8);
            }
    }
    bool same(int t, Bytes const& a, Bytes const& b, std::size_t* where = nullptr)
    {
        if (a.size() != b.size()) return false;
        return with_type(t, [&](auto x) {
            using T = decltype(x);
            for (std::size_t i = 0; i < a.size() / sizeof(T); ++i)
            {
                T p, q;
                std::memcpy(&p, &a[i * sizeof(T)], sizeof(T));
                std::memcpy(&q, &b[i * sizeof(T)], sizeof(T));
                bool eq = std::memcmp(&p, &q, sizeof(T)) == 0;
                if constexpr (std::is_floating_point_v<T>) eq = eq || (p != p && q != q);
                if (!eq) { if (where) *where = i; return false; }
            }
            return true;
        });
    }
    std::string difference(Bytes const& got, Bytes const& want, std::size_t first, std::size_t size)
    {
        std::size_t n = 0;
        for (std::size_t i = 0; i < got.size(); i += size) n += std::memcmp(&got[i], &want[i], size) != 0;
        u64 a = 0, b = 0;
        std::memcpy(&a, &got[first * size], size);
        std::memcpy(&b, &want[first * size], size);
        return ": " + std::to_string(a) + " instead of " + std::to_string(b) + " (as bits), " + std::to_string(n) + " cells in all";
    }
    bool close_to(double a, double b) { return std::abs(a - b) <= 1e-9 * std::max({1.0, std::abs(a), std::abs(b)}); }

    struct Raster   // in a format GDAL reads
    {
        bool exists = false;
        bool odd = false;      // the cells are not square, or north is not up
        int type = 0, rows = 0, cols = 0;
        std::array<double, 6> geo{};
        bool has_nodata = false;
        Bytes nodata;
        std::vector<Bytes> bands;
        Bytes file;            // what the importer must not change
    };
    struct Layer { int type = 0; bool has_nodata = false; Bytes nodata, cells; };
    struct Set { int rows = 0, cols = 0; std::array<double, 4> box{}; std::map<std::string, Layer> layers; };
    struct File { bool exists = false; std::map<std::string, std::map<std::string, Set>> phens; };

    constexpr int nr_rasters = 4, nr_files = 2;
    char const* const phen_names[] = {"area", "land"};
    char const* const set_names[] = {"s0", "s1", "s2", "s3"};
    char const* const layer_names[] = {"dem", "soil", "a b", "x_1", "slope", "dem2"};
    int gdal_warnings = 0;
    void on_error(CPLErr e, CPLErrorNum n, char const* msg)
    {
        if (e >= CE_Warning) ++gdal_warnings;
        if (getenv("SIM_H5ERR")) fprintf(stderr, "GDAL %d %d: %s\n", e, n, msg);
    }

    struct H: sim::Harness
    {
        std::string profile;
        explicit H(std::string p): profile{std::move(p)} {}
        std::vector<std::string> profiles() const override { return {"T01"}; }
        Run* run = nullptr;
        Raster rs[nr_rasters];
        File fs[nr_files];
        bool over = false;

        static std::string raster_path(int s) { return "/simfs/r" + std::to_string(s) + ".tif"; }
        static std::string file_path(int s) { return "/simfs/d" + std::to_string(s) + ".lue"; }
        void begin(Run& x) override
        {
            run = &x;
            lg::register_gdal_drivers();
            sim::stuck_library_is_crash = true;
            CPLSetErrorHandler(on_error);
        }
        void skip() { sim::probe("operation not applicable"); }

        struct Res { bool threw = false; std::uint32_t faults = 0, reads = 0, opens = 0; int lib = 0, closes = 0, warnings = 0; std::string what; };
        template<typename F>
        Res call(F f)
        {
            Res x;
            auto f0 = sim::faults_fired();
            auto r0 = sim::faults_fired_reading();
            auto p0 = sim::faults_fired_opening();
            auto l0 = lib_failed;
            auto g0 = gdal_warnings;
            auto c0 = h5ledger::failed_closes();
            CPLErrorReset();
            try
            {
                sim::InSut in;
                f();
            }
            catch (sim::Violation const&) { throw; }
            catch (std::exception const& e) { x.threw = true; x.what = e.what(); }
            x.faults = sim::faults_fired() - f0;
            x.reads = sim::faults_fired_reading() - r0;
            x.opens = sim::faults_fired_opening() - p0;
            x.lib = lib_failed - l0;
            x.warnings = gdal_warnings - g0;
            x.closes = (int)(h5ledger::failed_closes() - c0);
            sim::log_event(sim::mix(x.threw, x.faults));
            return x;
        }
        // what is done to files behind LUE's back
        void drop_raster(int s)
        {
            for (auto& p : sim::fs_list())
                if (p.rfind("/simfs/r" + std::to_string(s) + ".", 0) == 0) sim::fs_remove(p);
            rs[s] = Raster{};
        }
        void drop_file(int s)
        {
            if (sim::fs_exists(file_path(s))) sim::fs_remove(file_path(s));
            fs[s] = File{};
        }

        // ------------------------------------------------------------------ rasters, by GDAL itself
        void op_raster(Op const& op)
        {
            sim::NoFaults nf;
            int s = (int)(op.arg(0) % nr_rasters);
            drop_raster(s);
            Raster m;
            Rng g{op.arg(1)};
            // a raster on the grid of another one, so that both fit a property set
            Raster const* like = nullptr;
            for (int i = 0; i < nr_rasters; ++i)
                if (rs[i].exists && g.chance(0.5)) like = &rs[i];
            m.type = (int)g.below(nr_types);
            auto extent = [&] { return g.chance(0.5) ? 1 + (int)g.below(12) : g.chance(0.8) ? 1 + (int)g.below(70) : 1 + (int)g.below(400); };
            m.rows = like ? like->rows : extent();
            m.cols = like ? like->cols : extent();
            // a raster of many blocks
            if (!like && g.chance(0.2)) (g.chance(0.5) ? m.rows : m.cols) = 100 + (int)g.below(400), (m.rows > m.cols ? m.cols : m.rows) = 1 + (int)g.below(20);
            static double const sizes[] = {1, 0.5, 100, 0.125, 1.0 / 3, 0.1, 0.000992063492063};
            double w = sizes[g.below(7)], h = w;
            m.geo = {(double)g.range(-2000, 2000) / 4, w, 0, (double)g.range(-2000, 2000) / 4, 0, -h};
            if (like) m.geo = like->geo;
            m.odd = like && like->odd;
            if (!m.odd && g.chance(0.05))
            {
                m.odd = true;
                switch (g.below(4))
                {
                    case 0: m.geo[1] *= g.chance(0.5) ? 2 : 1.01; break;
                    case 1: m.geo[5] = -m.geo[5]; break;
                    case 2: m.geo[2] = 0.5; break;
                    case 3: m.geo[4] = -0.25; break;
                }
            }
            int nb = 1 + (int)(g.below(3) * g.below(2));
            char** o = nullptr;
            switch (g.below(4))
            {
                case 0: break;
                case 1:
                    o = CSLSetNameValue(o, "TILED", "YES");
                    o = CSLSetNameValue(o, "BLOCKXSIZE", std::to_string(16 * (1 + g.below(4))).c_str());
                    o = CSLSetNameValue(o, "BLOCKYSIZE", std::to_string(16 * (1 + g.below(3))).c_str());
                    break;
                case 2: o = CSLSetNameValue(o, "BLOCKYSIZE", std::to_string(1 + g.below(9)).c_str()); break;
                case 3: o = CSLSetNameValue(o, "COMPRESS", "LZW"); break;
            }
            if (g.chance(0.3)) o = CSLSetNameValue(o, "INTERLEAVE", "BAND");
            auto* d = GetGDALDriverManager()->GetDriverByName("GTiff");
            auto* ds = d->Create(raster_path(s).c_str(), m.cols, m.rows, nb, types[m.type].id, o);
            CSLDestroy(o);
            if (!ds) violate("harness", "GDAL cannot create a raster");
            ds->SetGeoTransform(m.geo.data());
            m.has_nodata = g.chance(0.5);
            for (int b = 1; b <= nb; ++b)
            {
                auto* band = ds->GetRasterBand(b);
                Bytes cells;
                with_type(m.type, [&](auto x) {
                    using T = decltype(x);
                    std::vector<T> v((std::size_t)m.rows * m.cols);
                    for (auto& c : v) c = some_value<T>(g.next());
                    if (band->RasterIO(GF_Write, 0, 0, m.cols, m.rows, v.data(), m.cols, m.rows, types[m.type].id, 0, 0, nullptr) != CE_None)
                        violate("harness", "GDAL cannot write a raster");
                    cells.resize(v.size() * sizeof(T));
                    std::memcpy(cells.data(), v.data(), cells.size());
                    if (m.has_nodata && b == 1)
                    {
                        T n = some_value<T>(g.next());
                        if constexpr (std::is_floating_point_v<T>) if (std::isinf(n)) n = T(-9999);
                        if constexpr (std::is_same_v<T, std::int64_t>) band->SetNoDataValueAsInt64(n);
                        else if constexpr (std::is_same_v<T, std::uint64_t>) band->SetNoDataValueAsUInt64(n);
                        else band->SetNoDataValue((double)n);
                        m.nodata.resize(sizeof(T));
                        std::memcpy(m.nodata.data(), &n, sizeof(T));
                    }
                });
                m.bands.push_back(cells);
            }
            GDALClose(ds);
            m.exists = true;
            m.file = sim::fs_content(raster_path(s));
            ds = (GDALDataset*)GDALOpen(raster_path(s).c_str(), GA_ReadOnly);
            for (int b = 1; b <= nb; ++b)
            {
                Bytes cells(m.bands[b - 1].size());
                if (ds->GetRasterBand(b)->RasterIO(GF_Read, 0, 0, m.cols, m.rows, cells.data(), m.cols, m.rows, types[m.type].id, 0, 0, nullptr) != CE_None)
                    violate("harness", "GDAL cannot read a raster");
                // what GDAL does to a raster is up to GDAL: what it delivers is what must arrive
                if (!same(m.type, cells, m.bands[b - 1])) sim::probe("GDAL stored another raster");
                m.bands[b - 1] = cells;
            }
            GDALClose(ds);
            if (m.rows * m.cols > 2000) sim::probe("raster of several blocks");
            if (nb > 1) sim::probe("raster of several bands");
            rs[s] = m;
        }
        void check_sources(char const* when)
        {
            for (int i = 0; i < nr_rasters; ++i)
            {
                if (!rs[i].exists) continue;
                if (!sim::fs_exists(raster_path(i)) || sim::fs_content(raster_path(i)) != rs[i].file)
                    violate("source-changed", std::string("a raster changed while ") + when);
            }
        }

        static lu::JSON entry(std::string const& name, std::string const& phen, std::string const& set, std::vector<std::string> const& bands)
        {
            lu::JSON b = lu::JSON::array();
            for (auto& n : bands) b.push_back({{"name", n}});
            return {{"name", name}, {"phenomenon", phen}, {"property_set", set}, {"raster", {{"bands", b}}}};
        }
        // the metadata is read from a file
        std::unique_ptr<lu::Metadata> metadata(lu::JSON const& datasets)
        {
            sim::NoFaults nf;
            lu::JSON root = {{"datasets", datasets}};
            auto text = root.dump();
            sim::fs_put("/simfs/meta.json", {text.begin(), text.end()});
            return std::make_unique<lu::Metadata>("/simfs/meta.json");
        }
        void op_import(Op const& op)
        {
            int f = (int)(op.arg(0) % nr_files);
            File& file = fs[f];
            Rng g{op.arg(1)};
            bool add = g.chance(0.8);
            std::vector<int> have;
            for (int i = 0; i < nr_rasters; ++i)
                if (rs[i].exists) have.push_back(i);
            if (have.empty()) { skip(); return; }
            std::vector<std::string> inputs;
            lu::JSON datasets = lu::JSON::array();
            // an entry nobody asks for
            if (g.chance(0.3)) datasets.push_back(entry("other", "p", "q", {"r"}));
            File after = file;
            bool refuse = false;
            if (file.exists && !add) refuse = true;
            int n = 1 + (int)(g.below(3) * g.below(2));
            for (int k = 0; k < n; ++k)
            {
                int s = have[g.below(have.size())];
                Raster const& m = rs[s];
                std::string name = "r" + std::to_string(s);
                bool again = false;
                for (auto& d : datasets) again = again || d.at("name") == name;
                if (again) continue;
                std::string phen = phen_names[g.below(2)];
                std::array<double, 4> box{m.geo[0], m.geo[3] + m.rows * m.geo[5], m.geo[0] + m.cols * m.geo[1], m.geo[3]};
                // a property set this raster fits in
                std::string set;
                u64 first = g.below(2);
                for (u64 i = 0; i < 4 && set.empty(); ++i)
                {
                    auto c = set_names[(first + i) % 4];
                    auto& sets = after.phens[phen];
                    auto it = sets.find(c);
                    if (it == sets.end() || (it->second.rows == m.rows && it->second.cols == m.cols && close_to(it->second.box[0], box[0]) && close_to(it->second.box[1], box[1]) &&
                                             close_to(it->second.box[2], box[2]) && close_to(it->second.box[3], box[3])))
                        set = c;
                }
                bool unfit = false;
                if (set.empty() || g.chance(0.08))
                    for (auto& [c, st] : after.phens[phen])
                        if (st.rows != m.rows || st.cols != m.cols || std::abs(st.box[0] - box[0]) > 0.1 * m.geo[1] || std::abs(st.box[3] - box[3]) > 0.1 * m.geo[1]) { set = c; unfit = true; }
                if (set.empty()) continue;
                if (unfit) { sim::probe("raster of another extent than the layers in the property set"); }
                std::vector<std::string> bands;
                bool conflict = false;
                int nb = g.chance(0.8) ? (int)m.bands.size() : 1 + (int)g.below(m.bands.size());
                for (int b = 0; b < nb; ++b)
                {
                    std::string l;
                    auto& layers = after.phens[phen][set].layers;
                    u64 at = g.below(6);
                    for (u64 i = 0; i < 6 && l.empty(); ++i)
                        if (!layers.count(layer_names[(at + i) % 6])) l = layer_names[(at + i) % 6];
                    if (l.empty() || (g.chance(0.05) && !layers.empty())) { l = layers.begin()->first; conflict = true; }
                    bands.push_back(l);
                    if (!conflict && !unfit)
                    {
                        auto& st = after.phens[phen][set];
                        st.rows = m.rows;
                        st.cols = m.cols;
                        if (st.layers.empty()) st.box = box;
                        st.layers[l] = Layer{m.type, m.has_nodata, m.nodata, m.bands[b]};
                    }
                    else break;
                }
                refuse = refuse || conflict || unfit || m.odd;
                if (m.odd) sim::probe("raster with cells that are not square or north not up");
                if (conflict) sim::probe("layer exists already");
                inputs.push_back(raster_path(s));
                if (g.chance(0.03)) { refuse = true; sim::probe("metadata lacks a raster"); name = "nobody"; }
                datasets.push_back(entry(name, phen, set, bands));
            }
            if (inputs.empty()) { skip(); return; }
            if (g.chance(0.03)) { refuse = true; inputs.push_back("/simfs/absent.tif"); datasets.push_back(entry("absent", "area", "s9", {"dem"})); sim::probe("raster that does not exist"); }
            auto meta = metadata(datasets);
            auto w0 = sim::fs_exists(file_path(f)) ? sim::fs_content(file_path(f)) : Bytes{};
            auto q = call([&] { lu::translate_gdal_raster_dataset_to_lue(inputs, file_path(f), add, *meta); });
            check_sources("it was imported");
            if (!q.threw && q.lib > 0) violate("failure-not-reported", "GDAL failed to deliver a raster, but importing it was reported as done");
            if (!q.threw && refuse) violate("accepted", "an import that must be refused was reported as done");
            if (q.threw && !refuse && q.faults == 0 && q.lib == 0) violate("unexpected-error", "importing rasters failed without a storage failure: " + q.what);
            if (file.exists && !add && (!sim::fs_exists(file_path(f)) || sim::fs_content(file_path(f)) != w0))
                violate("existing-changed", "an existing dataset changed though nothing was to be added to it");
            // failing to open files harms nothing that is in them
            if (file.exists && q.faults > 0 && q.faults == q.opens && q.closes == 0) { sim::probe("only opening failed"); verify(f, false); }
            // GDAL makes do without parts of a header it cannot read, and reports cells as read when they were not: no more than messages
            if (q.faults > 0 && (q.threw || q.faults != q.reads || q.closes > 0 || q.warnings > 0))
            {
                // storage failed: the HDF5 file is what HDF5 left of it
                sim::probe(q.threw ? "import failed by fault" : "fault while importing");
                drop_file(f);
                return;
            }
            if (q.faults > 0) sim::probe("import survived a fault");
            if (q.threw)
            {
                sim::probe("import refused");
                if (file.exists) verify(f, false);
                if (!file.exists || add) drop_file(f);
                return;
            }
            after.exists = true;
            sim::probe(file.exists ? "added to existing dataset" : "new dataset");
            file = after;
            verify(f, true);
        }
        void op_export(Op const& op)
        {
            int f = (int)(op.arg(0) % nr_files), s = (int)(op.arg(1) % nr_rasters);
            Rng g{op.arg(2)};
            if (!fs[f].exists) { skip(); return; }
            std::vector<std::array<std::string, 3>> all;
            for (auto& [p, sets] : fs[f].phens)
                for (auto& [n, set] : sets)
                    for (auto& [l, lay] : set.layers) all.push_back({p, n, l});
            if (all.empty()) { skip(); return; }
            auto [p, n, l] = all[g.below(all.size())];
            Set const set = fs[f].phens.at(p).at(n);
            Layer const layer = set.layers.at(l);
            bool refuse = false;
            switch (g.below(25))
            {
                case 0: refuse = true; l = "nothing"; break;
                case 1: refuse = true; n = "nothing"; break;
                case 2: refuse = true; p = "nothing"; break;
            }
            std::string target = g.chance(0.7) ? raster_path(s) : "/simfs/e.tif";
            bool slot = target != "/simfs/e.tif";
            if (slot) drop_raster(s);
            else if (sim::fs_exists(target)) sim::probe("export replaces a raster");
            lu::JSON datasets = lu::JSON::array();
            if (g.chance(0.5)) datasets.push_back(entry("other", "p", "q", {"r"}));
            datasets.push_back(entry(slot ? "r" + std::to_string(s) : "e", p, n, {l}));
            auto meta = metadata(datasets);
            auto before = sim::fs_content(file_path(f));
            // GDAL does not survive failing to read back what it is writing: only LUE's file is subject to failing reads, see below
            bool opened = false;
            auto q = call([&] {
                auto ds = lu::try_open_lue_dataset_for_read(file_path(f));
                opened = (bool)ds;
                if (!ds) throw std::runtime_error("cannot open");
                lu::translate_lue_dataset_to_gdal_raster(*ds, target, *meta);
            });
            check_sources("a layer was exported");
            if (sim::fs_content(file_path(f)) != before) violate("source-changed", "a dataset changed while a layer of it was exported");
            if (!q.threw && refuse) violate("accepted", "exporting a layer that does not exist was reported as done");
            if (!q.threw && q.lib > 0) violate("failure-not-reported", "GDAL failed to store a raster, but exporting it was reported as done");
            if (q.threw && !refuse && q.faults == 0 && q.lib == 0) violate("unexpected-error", "exporting a layer of type " + std::string(types[layer.type].name) + " failed without a storage failure: " + q.what);
            if (q.threw || (q.faults > 0 && q.faults != q.reads))
            {
                sim::probe(q.faults || q.lib ? "export failed or disturbed by fault" : "export refused");
                if (slot) drop_raster(s);
                else if (sim::fs_exists(target)) sim::fs_remove(target);
                if (sim::fs_exists(target + ".aux.xml")) sim::fs_remove(target + ".aux.xml");
                return;
            }
            check_raster(target, set, layer);
            if (slot)
            {
                Raster m;
                m.exists = true;
                m.type = layer.type;
                m.rows = set.rows;
                m.cols = set.cols;
                m.geo = {set.box[0], (set.box[2] - set.box[0]) / set.cols, 0, set.box[3], 0, -(set.box[3] - set.box[1]) / set.rows};
                m.has_nodata = layer.has_nodata;
                m.nodata = layer.nodata;
                m.bands.push_back(layer.cells);
                m.file = sim::fs_content(target);
                rs[s] = m;
            }
            sim::probe("layer exported");
        }
        void check_raster(std::string const& path, Set const& set, Layer const& layer)
        {
            sim::NoFaults nf;
            auto* ds = (GDALDataset*)GDALOpen(path.c_str(), GA_ReadOnly);
            if (!ds) violate("export-lost", "an exported raster cannot be opened");
            struct Closer { GDALDataset* d; ~Closer() { GDALClose(d); } } closer{ds};
            std::string who = std::string("exported raster of ") + types[layer.type].name;
            if (ds->GetRasterXSize() != set.cols || ds->GetRasterYSize() != set.rows) violate("wrong-shape", who + " has another shape than the layer");
            if (ds->GetRasterCount() != 1) violate("wrong-bands", who + " has several bands");
            auto* band = ds->GetRasterBand(1);
            if (band->GetRasterDataType() != types[layer.type].id) violate("wrong-type", who + " has another value type");
            double geo[6];
            if (ds->GetGeoTransform(geo) != CE_None) violate("wrong-extent", who + " is not placed anywhere");
            double want[6] = {set.box[0], (set.box[2] - set.box[0]) / set.cols, 0, set.box[3], 0, -(set.box[3] - set.box[1]) / set.rows};
            for (int i = 0; i < 6; ++i)
                if (!close_to(geo[i], want[i])) violate("wrong-extent", who + " is placed elsewhere: element " + std::to_string(i) + " of its geo-transform is " + std::to_string(geo[i]) + " instead of " + std::to_string(want[i]));
            Bytes cells((std::size_t)set.rows * set.cols * types[layer.type].size);
            if (band->RasterIO(GF_Read, 0, 0, set.cols, set.rows, cells.data(), set.cols, set.rows, types[layer.type].id, 0, 0, nullptr) != CE_None)
                violate("export-lost", who + " cannot be read");
            std::size_t at = 0;
            if (!same(layer.type, cells, layer.cells, &at))
                violate("wrong-value", who + ": row " + std::to_string(at / set.cols) + " column " + std::to_string(at % set.cols) + " of " + std::to_string(set.rows) + " by " + std::to_string(set.cols) + " differs from the layer" + difference(cells, layer.cells, at, (std::size_t)types[layer.type].size));
            int has = 0;
            Bytes nd(types[layer.type].size);
            with_type(layer.type, [&](auto x) {
                using T = decltype(x);
                if constexpr (std::is_same_v<T, std::int64_t>) x = band->GetNoDataValueAsInt64(&has);
                else if constexpr (std::is_same_v<T, std::uint64_t>) x = band->GetNoDataValueAsUInt64(&has);
                else x = (T)band->GetNoDataValue(&has);
                if (has) std::memcpy(nd.data(), &x, sizeof x);
            });
            if ((has != 0) != layer.has_nodata || (has && !same(layer.type, nd, layer.nodata))) violate("wrong-no-data", who + " has another no-data value than the layer");
        }
        // everything that was imported is there; complete: and nothing else
        void verify(int f, bool complete)
        {
            sim::NoFaults nf;
            File const& m = fs[f];
            try
            {
                if (!sim::fs_exists(file_path(f))) violate("import-lost", "an imported dataset does not exist");
                auto ds = ldm::open_dataset(file_path(f), H5F_ACC_RDONLY);
                ldm::assert_is_valid(ds);
                auto& phens = ds.phenomena();
                if (complete && phens.size() != count_phens(m)) violate("names", "a dataset has other phenomena than those imported");
                for (auto& [pn, sets] : m.phens)
                {
                    if (!has_layers(sets)) continue;
                    if (!phens.contains(pn)) violate("import-lost", "phenomenon " + pn + " is missing");
                    for (auto& [sn, set] : sets)
                    {
                        if (set.layers.empty()) continue;
                        std::string who = pn + "/" + sn;
                        if (!phens[pn].property_sets().contains(sn) || !ldm::constant::contains_raster(ds, pn, sn)) violate("import-lost", "raster " + who + " is missing");
                        auto v = ldm::constant::open_raster_view(&ds, pn, sn);
                        if (v.grid_shape() != lh5::Shape{(u64)set.rows, (u64)set.cols}) violate("wrong-shape", "raster " + who + " has another shape than what was imported");
                        auto box = v.space_box();
                        for (int i = 0; i < 4; ++i)
                            if (!close_to(box[i], set.box[i])) violate("wrong-extent", "raster " + who + " covers another area than what was imported: element " + std::to_string(i) + " of its box is " + std::to_string(box[i]) + " instead of " + std::to_string(set.box[i]));
                        if (complete && v.nr_layers() != set.layers.size()) violate("names", "raster " + who + " has other layers than those imported");
                        for (auto& [ln, l] : set.layers)
                        {
                            std::string which = "layer " + who + "/" + ln + " (" + types[l.type].name + ")";
                            if (!v.contains(ln)) violate("import-lost", which + " is missing");
                            auto layer = v.layer(ln);
                            with_type(l.type, [&](auto x) {
                                using T = decltype(x);
                                if (!(layer.memory_datatype() == lh5::native_datatype<T>())) violate("wrong-type", which + " has another type than what was imported");
                                Bytes cells((std::size_t)set.rows * set.cols * sizeof(T));
                                layer.read(cells.data());
                                std::size_t at = 0;
                                if (!same(l.type, cells, l.cells, &at))
                                    violate("wrong-value", which + ": row " + std::to_string(at / set.cols) + " column " + std::to_string(at % set.cols) + " of " + std::to_string(set.rows) + " by " + std::to_string(set.cols) + " is not what was imported" + difference(cells, l.cells, at, sizeof(T)));
                                if (layer.has_no_data_value() != l.has_nodata) violate("wrong-no-data", which + (l.has_nodata ? " lost its no-data value" : " has a no-data value"));
                                if (l.has_nodata)
                                {
                                    T n = layer.template no_data_value<T>();
                                    Bytes nd(sizeof n);
                                    std::memcpy(nd.data(), &n, sizeof n);
                                    if (!same(l.type, nd, l.nodata)) violate("wrong-no-data", which + " has another no-data value than what was imported");
                                }
                            });
                        }
                    }
                }
            }
            catch (sim::Violation const&) { throw; }
            catch (std::exception const& x) { violate("import-unreadable", std::string("reading an imported dataset failed without a storage failure: ") + x.what()); }
        }
        static bool has_layers(std::map<std::string, Set> const& sets)
        {
            for (auto& [n, s] : sets) if (!s.layers.empty()) return true;
            return false;
        }
        static u64 count_phens(File const& m)
        {
            u64 n = 0;
            for (auto& [p, sets] : m.phens) n += has_layers(sets);
            return n;
        }

        void restarted(Run&) override { over = true; }
        void step(Run& x, Op const& op) override
        {
            run = &x;
            if (over || !x.real) { x.outcome(sim::oc_skipped); return; }
            auto const& k = op.kind;
            if (k == "raster") op_raster(op);
            else if (k == "import") op_import(op);
            else if (k == "export") op_export(op);
            else if (k == "verify") { int f = (int)(op.arg(0) % nr_files); if (fs[f].exists) verify(f, true); else skip(); }
            else if (k == "drop") drop_file((int)(op.arg(0) % nr_files));
            sim::log_event(sim::hash_str(k));
            u64 h = 0;
            for (auto& r : rs) h = sim::mix(h, r.exists ? (u64)r.type * 1000003 + (u64)r.rows * 1009 + (u64)r.cols : 0);
            for (auto& f : fs)
                for (auto& [p, sets] : f.phens)
                    for (auto& [n, s] : sets) h = sim::mix(h, s.layers.size() * 7 + (u64)s.rows);
            sim::state(h);
            x.outcome(sim::oc_ok);
        }
        void finish(Run& x) override
        {
            run = &x;
            if (over) return;
            for (int f = 0; f < nr_files; ++f) if (fs[f].exists) verify(f, true);
            check_sources("others were translated");
        }
        void generate(Rng& g, Trace& t) override
        {
            auto add = [&](char const* k) {
                Op o;
                o.kind = k;
                for (int i = 0; i < 4; ++i) o.a.push_back(g.next() >> 1);
                t.ops.push_back(o);
            };
            struct W { char const* k; int w; };
            std::vector<W> w{{"raster", 8}, {"import", 16}, {"export", 16}, {"verify", 2}, {"drop", 2}};
            add("raster");
            if (g.chance(0.6)) add("raster");
            add("import");
            int total = 0, n = (int)g.range(2, g.chance(0.3) ? 25 : 10);
            for (auto& x : w) total += x.w;
            for (int i = 0; i < n; ++i)
            {
                int k = (int)g.below((u64)total);
                for (auto& x : w)
                {
                    if (k < x.w) { add(x.k); break; }
                    k -= x.w;
                }
            }
            auto fault = [&](std::uint32_t cls, std::uint32_t kind, int far, std::uint32_t count) {
                sim::Fault f;
                f.op = (std::uint32_t)g.below(t.ops.size());
                f.nth = (std::uint32_t)g.below((u64)far);
                f.cls = cls;
                f.kind = kind;
                f.arg = (std::uint32_t)g.below(5000);
                f.count = count;
                t.faults.push_back(f);
            };
            if (g.chance(0.4))
                for (int i = 1 + (int)g.below(3); i-- > 0;)
                {
                    auto cnt = g.chance(0.6) ? 1 : 1 + (std::uint32_t)g.below(30);
                    int far = g.chance(0.5) ? 6 : 60;
                    switch (g.below(9))
                    {
                        case 0: case 1: fault(sim::fc_read, sim::fk_eio, far, cnt); break;
                        case 2: fault(g.chance(0.7) ? sim::fc_open : sim::fc_stat | sim::fc_open, g.chance(0.5) ? sim::fk_emfile : sim::fk_eacces, 4, cnt); break;
                        case 3: fault(sim::fc_write, sim::fk_eio, far, cnt); break;
                        case 4: fault(sim::fc_write | sim::fc_trunc, sim::fk_enospc, far, cnt); break;
                        case 5: fault(sim::fc_read, sim::fk_short, far, cnt); break;
                        case 6: fault(sim::fc_stat | sim::fc_open, g.chance(0.5) ? sim::fk_emfile : sim::fk_eacces, 2, 1); break;
                        default: fault(sim::fc_lib, sim::fk_eio, 1 + (int)g.below(8), cnt); break;
                    }
                }
        }
    };
}  // namespace

int main(int argc, char** argv)
{
    lg::register_gdal_drivers();
    return sim::main_(argc, argv, [](std::string const& p) -> sim::Harness* { return new H{p}; });
}
