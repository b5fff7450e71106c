// Importing JSON documents: lue::utility's JSON translator on the real data model, HDF5 and GDAL, on the simulated disk.
#include "simkit.hpp"
#include "gdal_seam.hpp"
#include "h5ledger.hpp"
#include "lue/gdal.hpp"
#include "lue/data_model.hpp"
#include "lue/translate/format/json.hpp"
#include <cpl_conv.h>
#include <cpl_error.h>
#include <map>
#include <memory>
#include <optional>
#include <vector>

namespace ldm = lue::data_model;
namespace lh5 = lue::hdf5;
namespace lg = lue::gdal;
namespace lu = lue::utility;
using J = nlohmann::json;
using sim::Op;
using sim::Rng;
using sim::Run;
using sim::Trace;
using sim::violate;
using u64 = std::uint64_t;
using i64 = std::int64_t;

namespace {
    char const* const type_name[] = {"uint32", "uint64", "float32", "float64", "string", "uint8"};
    // values as text: exact, and comparable whatever their type
    using Texts = std::vector<std::string>;
    template<typename T>
    std::string text(T v)
    {
        if constexpr (std::is_floating_point_v<T>)
        {
            char b[40];
            snprintf(b, sizeof b, "%.17g", (double)v);
            return b;
        }
        else return std::to_string(v);
    }
    struct Element { J json; std::string text; };
    Element element(int type, Rng& g)
    {
        u64 r = g.next();
        switch (type)
        {
            case 0: { std::uint32_t v = r % 4 ? (std::uint32_t)(r >> 40) : r % 8 ? 0xffffffffu : 0; return {v, text(v)}; }
            case 1: { u64 v = r % 4 ? r >> 20 : r % 8 ? ~0ull : 0; return {v, text(v)}; }
            case 2: { float v = r % 4 ? (float)(i64)(r >> 30) / 8.0f - 1e9f : r % 8 ? std::numeric_limits<float>::max() : 0.1f; return {v, text(v)}; }
            case 3: { double v = r % 4 ? (double)(i64)(r >> 20) / 3.0 - 1e12 : r % 8 ? std::numeric_limits<double>::lowest() : 0.1; return {v, text(v)}; }
            case 4:
            {
                static char const* const s[] = {"", "a", "two words", "ümlaut", "a much longer string than those that fit in place"};
                std::string v = s[r % 5];
                if (r % 3 == 0) v += std::to_string(r % 1000);
                return {v, v};
            }
            default: { std::uint8_t v = (std::uint8_t)(r >> 8); return {v, text((unsigned)v)}; }
        }
    }
    struct Obj { u64 id = 0; std::vector<u64> shape; Texts values; };
    struct Target { std::string phen, set, name; bool collection = false; };
    struct Prop
    {
        std::optional<Target> target;        // discretization of space (kind 2)
        int kind = 0;      // 0 constant, same shape; 1 variable, same constant shape; 2 constant, different shape; 3 variable, different variable shape
        int type = 0;
        std::vector<u64> shape;
        u64 rank = 0;
        Texts values;                        // kinds 0 and 1
        std::vector<Obj> objects;            // kind 2
        std::vector<std::vector<Obj>> times; // kind 3
    };
    struct Set
    {
        bool time = false, space = false;
        int unit = 0;
        u64 nr_units = 1;
        int epoch = 0;         // 0 kind only, 1 with origin, 2 with calendar
        int kind = 0;
        std::string origin;
        Texts points, boxes, set_index, object_index, ids;
        std::map<std::string, Prop> props;
    };
    struct Phen { Texts ids; std::map<std::string, Set> sets, collections; };
    struct File { bool exists = false; std::map<std::string, Phen> phens; std::map<std::string, std::map<std::string, Phen>> universes; };
    constexpr int nr_files = 2, nr_rasters = 3;
    struct Raster { int type = 3; u64 rows = 0, cols = 0; std::array<double, 4> box{}; Texts values; };
    char const* const units[] = {"nanosecond", "microsecond", "millisecond", "second", "minute", "hour", "day", "week", "month", "year"};
    int gdal_warnings = 0;
    void on_error(CPLErr e, CPLErrorNum n, char const* msg)
    {
        if (e >= CE_Warning) ++gdal_warnings;
        if (getenv("SIM_H5ERR")) fprintf(stderr, "GDAL %d %d: %s\n", e, n, msg);
    }

    struct H: sim::Harness
    {
        std::vector<std::string> profiles() const override { return {"T02"}; }
        Run* run = nullptr;
        File fs[nr_files];
        Raster rasters[nr_rasters];
        bool over = false;
        u64 next_id = 1;

        static std::string path(int f) { return "/simfs/d" + std::to_string(f) + ".lue"; }
        void begin(Run& x) override
        {
            run = &x;
            lg::register_gdal_drivers();
            sim::stuck_library_is_crash = true;
            CPLSetErrorHandler(on_error);
            setenv("SIM_DATA", "/simfs", 1);
            sim::NoFaults nf;
            if (!x.real) return;
            for (int i = 0; i < nr_rasters; ++i) make_raster(i, Rng{(u64)x.trace.c("rasters") + i});
        }
        void make_raster(int i, Rng g)
        {
            Raster& m = rasters[i];
            m.type = (int)(i == 0 ? 2 : i == 1 ? 3 : 0);
            m.rows = 1 + g.below(9);
            m.cols = 1 + g.below(9);
            double size = 0.25 * (double)(1 + g.below(8)), west = (double)g.range(-40, 40), north = (double)g.range(-40, 40);
            m.box = {west, north - (double)m.rows * size, west + (double)m.cols * size, north};
            auto type = m.type == 2 ? GDT_Float32 : m.type == 3 ? GDT_Float64 : GDT_UInt32;
            auto* ds = GetGDALDriverManager()->GetDriverByName("GTiff")->Create(("/simfs/r" + std::to_string(i) + ".tif").c_str(), (int)m.cols, (int)m.rows, 1, type, nullptr);
            double geo[6] = {west, size, 0, north, 0, -size};
            ds->SetGeoTransform(geo);
            std::vector<double> v;
            for (u64 k = 0; k < m.rows * m.cols; ++k)
            {
                double d = (double)g.below(100000) / (m.type == 0 ? 1 : 8);
                if (m.type == 0) d = std::floor(d);
                v.push_back(d);
                m.values.push_back(m.type == 0 ? text((std::uint32_t)d) : text(d));
            }
            if (ds->GetRasterBand(1)->RasterIO(GF_Write, 0, 0, (int)m.cols, (int)m.rows, v.data(), (int)m.cols, (int)m.rows, GDT_Float64, 0, 0, nullptr) != CE_None)
                violate("harness", "GDAL cannot write a raster");
            GDALClose(ds);
        }
        void skip() { sim::probe("operation not applicable"); }

        // ------------------------------------------------------------------ documents
        static u64 product(std::vector<u64> const& s)
        {
            u64 n = 1;
            for (auto x : s) n *= x;
            return n;
        }
        J values(int type, u64 n, Rng& g, Texts& out)
        {
            J a = J::array();
            for (u64 i = 0; i < n; ++i)
            {
                auto e = element(type, g);
                a.push_back(e.json);
                out.push_back(e.text);
            }
            return a;
        }
        J numbers(u64 n, Rng& g, Texts& out, u64 offset = 0)
        {
            J a = J::array();
            for (u64 i = 0; i < n; ++i)
            {
                u64 v = g.below(1000);
                a.push_back(v);
                out.push_back(text(v + offset));
            }
            return a;
        }
        std::string env_path(int r, Rng& g)
        {
            std::string f = "/r" + std::to_string(r) + ".tif";
            return (g.chance(0.5) ? "${SIM_DATA}" : "/simfs") + f;
        }
        // a property in the dataset that others can refer to
        std::optional<Target> some_target(Rng& g)
        {
            std::vector<Target> found;
            for (auto& [n, p] : document->phens)
            {
                for (auto& [k, s] : p.collections)
                    for (auto& [q, x] : s.props) found.push_back({n, k, q, true});
                for (auto& [k, s] : p.sets)
                    if (!p.collections.count(k) && k != busy)
                        for (auto& [q, x] : s.props) found.push_back({n, k, q, false});
            }
            if (found.empty()) return {};
            return found[g.below(found.size())];
        }
        File* document = nullptr;   // as it will be when what has been generated of it is imported
        std::string busy;           // property set being generated
        J property(Set& s, Rng& g, bool& refuse)
        {
            static char const* const names[] = {"a", "b", "c d", "e"};
            std::string name = names[g.below(4)];
            bool fresh = !s.props.count(name);
            Prop p;
            if (fresh)
            {
                p.kind = (int)(s.time ? g.below(4) : g.chance(0.5) ? 0 : 2);
                p.type = (int)g.below(p.kind == 0 || p.kind == 2 ? 5 : 4);
                p.rank = 1 + g.below(2);
                if (p.kind <= 1)
                    for (u64 i = g.below(3); i-- > 0;) p.shape.push_back(1 + g.below(3));
            }
            else p = s.props[name];
            if (!fresh && p.kind != 3 && g.chance(0.03))
            {
                refuse = true;
                sim::probe("values of another type than the property has");
                p.type = p.type == 3 ? 0 : p.type == 0 ? 3 : p.type == 2 ? 1 : 2;
            }
            if (!fresh && p.kind <= 1 && g.chance(0.03))
            {
                refuse = true;
                sim::probe("values of another shape than the property has");
                if (g.chance(0.5)) p.shape.push_back(2);
                else if (!p.shape.empty()) p.shape.back() += 1;
                else p.shape = {3};
            }
            J j = {{"name", name}, {"datatype", type_name[p.type]}, {"value_variability", p.kind == 0 || p.kind == 2 ? "constant" : "variable"},
                   {"shape_per_object", p.kind <= 1 ? "same_shape" : "different_shape"}};
            if (p.kind == 1) j["shape_variability"] = "constant_shape";
            if (p.kind == 3) j["shape_variability"] = "variable_shape";
            if (p.kind <= 1)
            {
                if (!p.shape.empty() || g.chance(0.5)) j["shape"] = p.shape;
                u64 n = product(p.shape) * g.below(5);
                if (product(p.shape) > 1 && g.chance(0.04)) { ++n; refuse = true; sim::probe("number of values does not fit"); }
                j["value"] = values(p.type, n, g, p.values);
            }
            else
            {
                j["rank"] = p.rank;
                u64 n = g.below(4);
                if (p.kind == 2)
                {
                    J a = J::array();
                    for (u64 i = 0; i < n; ++i)
                    {
                        Obj o;
                        o.id = next_id++ + (g.chance(0.1) ? 1000000 : 0);
                        J v = {{"id", o.id}};
                        int r = (int)g.below(nr_rasters);
                        if (p.rank == 2 && (rasters[r].type == p.type || g.chance(0.02)) && g.chance(0.5))
                        {
                            o.shape = {rasters[r].rows, rasters[r].cols};
                            o.values = rasters[r].values;
                            v["dataset"] = env_path(r, g);
                            sim::probe("values from a raster");
                            if (rasters[r].type != p.type) { refuse = true; sim::probe("raster of another type"); }
                        }
                        else
                        {
                            for (u64 k = 0; k < p.rank; ++k) o.shape.push_back(1 + g.below(4));
                            v["shape"] = o.shape;
                            v["value"] = values(p.type, product(o.shape), g, o.values);
                            if (g.chance(0.02))
                            {
                                refuse = true;
                                sim::probe("shape and values do not fit");
                                if (g.chance(0.3)) v["shape"].push_back(1);
                                else v["shape"][0] = o.shape[0] + (g.chance(0.5) || o.shape[0] == 1 ? 1 : -1);
                            }
                        }
                        a.push_back(v);
                        p.objects.push_back(o);
                    }
                    j["value"] = a;
                }
                else
                {
                    ++n;
                    J ids = J::array(), shapes = J::array(), a = J::array();
                    std::vector<Obj> objs;
                    for (u64 i = 0; i < n; ++i)
                    {
                        Obj o;
                        o.id = 1 + i * 3 + g.below(3);
                        for (u64 k = 0; k < p.rank; ++k) o.shape.push_back(1 + g.below(4));
                        ids.push_back(o.id);
                        shapes.push_back(o.shape);
                        a.push_back(values(p.type, product(o.shape), g, o.values));
                        objs.push_back(o);
                    }
                    if (g.chance(0.03))
                    {
                        refuse = true;
                        sim::probe("shape and values do not fit");
                        switch (g.below(3))
                        {
                            case 0: a.push_back(J::array()); break;
                            case 1: shapes.erase(shapes.size() - 1); break;
                            default: a[0].push_back(1); break;
                        }
                    }
                    j["object_id"] = ids;
                    j["shape"] = shapes;
                    j["value"] = a;
                    p.times.push_back(objs);
                }
            }
            if (p.kind == 2 && !p.target && g.chance(0.4))
                if (auto t = some_target(g))
                {
                    p.target = t;
                    std::string path = "/" + t->phen + "/" + t->set + "/" + t->name;
                    if (g.chance(0.05)) { path += "?"; refuse = true; sim::probe("property referred to does not exist"); }
                    j["space_discretization"] = {{"type", "regular_grid"}, {"property", path}};
                    if (g.chance(0.02)) { j["space_discretization"]["type"] = "irregular"; refuse = true; sim::probe("unknown kind of discretization"); }
                    sim::probe("space is discretized by another property");
                }
            if (fresh && g.chance(0.02)) { j["datatype"] = "complex"; refuse = true; sim::probe("type that is not supported"); }
            if (!refuse) s.props[name] = p;
            return j;
        }
        J property_set(std::map<std::string, Set>& sets, Rng& g, bool& refuse)
        {
            static char const* const names[] = {"s", "t", "u v"};
            std::string name = busy = names[g.below(3)];
            bool fresh = !sets.count(name);
            Set s;
            if (fresh)
            {
                s.time = g.chance(0.5);
                s.space = g.chance(0.4);
                s.unit = (int)g.below(10);
                s.nr_units = 1 + g.below(7);
                s.epoch = (int)g.below(3);
                s.kind = (int)g.below(2);
                s.origin = "2019-01-02T03:04:05+00:0" + std::to_string(g.below(3));
            }
            else s = sets[name];
            J j = {{"name", name}};
            if (s.space && (fresh || g.chance(0.1)))
            {
                if (!fresh) { refuse = true; sim::probe("space domain exists already"); }
                J d = {{"datatype", "float64"}, {"rank", 2}};
                J b = J::array();
                if (g.chance(0.3))
                    for (u64 n = 1 + g.below(3); n-- > 0;)
                    {
                        int r = (int)g.below(nr_rasters);
                        b.push_back(env_path(r, g));
                        for (auto x : rasters[r].box) s.boxes.push_back(text(x));
                        sim::probe("space box of a raster");
                    }
                else
                {
                    u64 n = 4 * g.below(4);
                    if (g.chance(0.04)) { n += 1 + g.below(3); refuse = true; sim::probe("number of coordinates does not fit"); }
                    b = values(3, n, g, s.boxes);
                }
                d["space_box"] = b;
                j["space_domain"] = d;
            }
            if (s.time)
            {
                J e = {{"kind", s.kind == 0 ? "common_era" : "formation_of_earth"}};
                if (s.epoch >= 1) e["origin"] = s.origin;
                if (s.epoch == 2) e["calendar"] = "gregorian";
                J c = {{"epoch", e}, {"unit", units[s.unit]}, {"tick_period_count", s.nr_units}};
                if (!fresh && g.chance(0.05))
                {
                    refuse = true;
                    sim::probe("another clock");
                    switch (g.below(3))
                    {
                        case 0: c["unit"] = units[(s.unit + 1) % 10]; break;
                        case 1: c["tick_period_count"] = s.nr_units + 1; break;
                        case 2: c["epoch"]["kind"] = s.kind == 1 ? "common_era" : "formation_of_earth"; break;
                    }
                }
                u64 have = s.ids.size();
                J t = J::object();
                if (g.chance(0.7)) t["active_set_index"] = numbers(g.below(4), g, s.set_index, have);
                if (g.chance(0.7)) t["active_object_index"] = numbers(g.below(5), g, s.object_index);
                if (g.chance(0.7)) t["active_object_id"] = numbers(g.below(5), g, s.ids);
                j["object_tracker"] = t;
                j["time_domain"] = {{"clock", c}, {"time_point", numbers(g.below(4), g, s.points)}};
            }
            if (g.chance(0.9))
            {
                J ps = J::array();
                std::map<std::string, bool> seen;
                for (u64 n = g.below(4); n-- > 0;) ps.push_back(property(s, g, refuse));
                j["properties"] = ps;
            }
            if (!refuse) sets[name] = s;
            return j;
        }
        J phenomenon(std::map<std::string, Phen>& phens, Rng& g, bool& refuse)
        {
            static char const* const names[] = {"park", "tree", "x y"};
            std::string name = names[g.below(3)];
            Phen& p = phens[name];
            J j = {{"name", name}};
            if (g.chance(0.6)) j["object_id"] = numbers(g.below(5), g, p.ids);
            if (g.chance(0.3))
            {
                J a = J::array();
                for (u64 n = g.below(3); n-- > 0 && !refuse;) a.push_back(property_set(p.collections, g, refuse));
                j["collection_property_sets"] = a;
            }
            if (g.chance(0.8))
            {
                J a = J::array();
                for (u64 n = g.below(3); n-- > 0 && !refuse;) a.push_back(property_set(p.sets, g, refuse));
                j["property_sets"] = a;
            }
            return j;
        }

        void op_import(Op const& op)
        {
            int f = (int)(op.arg(0) % nr_files);
            Rng g{op.arg(1)};
            File& file = fs[f];
            bool add = g.chance(0.85), refuse = false;
            File after = add ? file : File{};
            document = &after;
            J d = J::object();
            if (g.chance(0.3))
            {
                J a = J::array();
                for (u64 n = g.below(3); n-- > 0 && !refuse;)
                {
                    std::string name = n % 2 ? "here" : "there";
                    auto& u = after.universes[name];
                    J j = {{"name", name}};
                    J b = J::array();
                    for (u64 k = g.below(3); k-- > 0 && !refuse;) b.push_back(phenomenon(u, g, refuse));
                    if (!b.empty() || g.chance(0.5)) j["phenomena"] = b;
                    a.push_back(j);
                }
                d["universes"] = a;
            }
            if (g.chance(0.9))
            {
                J a = J::array();
                for (u64 n = g.below(4); n-- > 0 && !refuse;) a.push_back(phenomenon(after.phens, g, refuse));
                d["phenomena"] = a;
            }
            J doc = {{"dataset", d}};
            if (g.chance(0.02)) { doc = {{"data", d}}; refuse = true; sim::probe("document without dataset"); }
            std::string s = g.chance(0.5) ? doc.dump() : doc.dump(2);
            bool broken = false;
            if (g.chance(0.03)) { s.resize(s.size() - 1 - g.below(std::min<u64>(s.size() / 2, 30))); refuse = broken = true; sim::probe("document is cut off"); }
            bool absent = g.chance(0.02);
            if (absent) { refuse = broken = true; sim::probe("document does not exist"); }
            {
                sim::NoFaults nf;
                if (absent) { if (sim::fs_exists("/simfs/doc.json")) sim::fs_remove("/simfs/doc.json"); }
                else sim::fs_put("/simfs/doc.json", {s.begin(), s.end()});
            }
            auto before = sim::fs_exists(path(f)) ? sim::fs_content(path(f)) : std::vector<unsigned char>{};
            // what happens
            bool threw = false;
            std::string why;
            auto f0 = sim::faults_fired();
            auto r0 = sim::faults_fired_reading();
            auto p0 = sim::faults_fired_opening();
            auto l0 = lib_failed;
            auto w0 = gdal_warnings;
            auto c0 = h5ledger::failed_closes();
            try
            {
                sim::InSut in;
                // metadata is not used
                lu::Metadata metadata;
                lu::translate_json_to_lue("/simfs/doc.json", path(f), add, metadata);
            }
            catch (sim::Violation const&) { throw; }
            catch (std::exception const& e) { threw = true; why = e.what(); }
            bool faults = sim::faults_fired() != f0, only_reads = sim::faults_fired() - f0 == sim::faults_fired_reading() - r0;
            bool lib = lib_failed != l0;
            sim::log_event(sim::mix(threw, faults));
            if (!threw && refuse) violate("accepted", "a document that cannot be imported was reported as imported");
            if (!threw && lib) violate("failure-not-reported", "GDAL failed to deliver a raster, but the import was reported as done");
            if (threw && !refuse && !faults && !lib) violate("unexpected-error", "importing a document failed without a storage failure: " + why);
            // failing to open files harms nothing that is in them
            if (faults && add && file.exists && sim::faults_fired() - f0 == sim::faults_fired_opening() - p0 && h5ledger::failed_closes() == c0) { sim::probe("only opening failed"); verify(f, false); }
            if (faults && (threw || !only_reads || h5ledger::failed_closes() != c0 || gdal_warnings != w0))
            {
                sim::probe(threw ? "import failed by fault" : "fault while importing");
                drop(f);
                return;
            }
            if (faults) sim::probe("import survived a fault");
            if (threw)
            {
                sim::probe("import refused");
                if (broken && file.exists && sim::fs_content(path(f)) != before)
                    violate("existing-changed", "a dataset changed though there was nothing to import");
                if (file.exists && (add || broken)) verify(f, broken);
                if (!broken) drop(f);
                return;
            }
            sim::probe(file.exists ? add ? "added to existing dataset" : "dataset replaced" : "new dataset");
            after.exists = true;
            file = after;
            verify(f, true);
        }
        void drop(int f)
        {
            if (sim::fs_exists(path(f))) sim::fs_remove(path(f));
            fs[f] = File{};
        }

        // ------------------------------------------------------------------ what is stored
        ldm::Dataset* opened = nullptr;
        bool complete = true;   // nothing but what was imported; otherwise: at least that
        void compare(std::string const& what, Texts const& got, Texts const& want)
        {
            if (got.size() < want.size() || (complete && got.size() != want.size()))
                violate("wrong-count", what + ": " + std::to_string(got.size()) + " values instead of " + std::to_string(want.size()));
            for (std::size_t i = 0; i < want.size(); ++i)
                if (got[i] != want[i]) violate("wrong-value", what + ": value " + std::to_string(i) + " is " + got[i] + " instead of " + want[i]);
        }
        template<typename Read>
        static Texts texts(int type, u64 n, Read read)
        {
            Texts r;
            if (n == 0) return r;
            auto get = [&](auto x) {
                using T = decltype(x);
                std::vector<T> v(n);
                read(v.data());
                for (auto& e : v) r.push_back(text(e));
            };
            switch (type)
            {
                case 0: get(std::uint32_t{}); break;
                case 1: get(std::uint64_t{}); break;
                case 2: get(float{}); break;
                case 3: get(double{}); break;
                case 4:
                {
                    std::vector<char*> v(n, nullptr);
                    read(v.data());
                    for (auto* e : v) { r.push_back(e ? e : "<null>"); if (e) H5free_memory(e); }
                    break;
                }
                case 6: { std::vector<i64> v(n); read(v.data()); for (auto e : v) r.push_back(text(e)); break; }
            }
            return r;
        }
        static lh5::Datatype native(int type)
        {
            switch (type)
            {
                case 0: return lh5::native_datatype<std::uint32_t>();
                case 1: return lh5::native_datatype<std::uint64_t>();
                case 2: return lh5::native_datatype<float>();
                case 3: return lh5::native_datatype<double>();
                default: return lh5::native_datatype<std::string>();
            }
        }
        template<typename V>
        void check_array(std::string const& what, V& v, int type, u64 size, Texts const& want)
        {
            u64 n = v.nr_arrays();
            compare(what, texts(type, n * size, [&](void* b) { v.read(ldm::IndexRange{0, n}, b); }), want);
        }
        static lh5::Shape h5shape(std::vector<u64> const& s) { return lh5::Shape(s.begin(), s.end()); }
        void check_prop(std::string const& what, ldm::Properties& r, std::string const& name, Prop const& p)
        {
            if (!r.contains(name)) violate("import-lost", what + " is missing");
            auto typed = [&](lh5::Datatype const& t) {
                if (p.type != 4 && !(t == native(p.type))) violate("wrong-type", what + " has another type");
            };
            switch (p.kind)
            {
                case 0:
                {
                    auto& v = r.collection<ldm::same_shape::Properties>()[name].value();
                    typed(v.memory_datatype());
                    if (v.array_shape() != h5shape(p.shape)) violate("wrong-shape", what + " has another shape");
                    check_array(what, v, p.type, product(p.shape), p.values);
                    break;
                }
                case 1:
                {
                    auto& v = r.collection<ldm::same_shape::constant_shape::Properties>()[name].value();
                    typed(v.memory_datatype());
                    if (v.array_shape() != h5shape(p.shape)) violate("wrong-shape", what + " has another shape");
                    check_array(what, v, p.type, product(p.shape), p.values);
                    break;
                }
                case 2:
                {
                    auto& q = r.collection<ldm::different_shape::Properties>()[name];
                    if (p.target ? !q.space_is_discretized() : complete && q.space_is_discretized()) violate("wrong-discretization", what + ": whether space is discretized is wrong");
                    if (p.target)
                    {
                        if (q.space_discretization_type() != ldm::SpaceDiscretization::regular_grid)
                            violate("wrong-discretization", what + ": space is discretized otherwise");
                        auto& phen = opened->phenomena()[p.target->phen];
                        auto& props = (p.target->collection ? phen.collection_property_sets() : phen.property_sets())[p.target->set].properties();
                        ldm::PropertyGroup want{props.collection_group(p.target->name), p.target->name};
                        auto got = q.space_discretization_property();
                        if (!(got.id() == want.id())) violate("wrong-discretization", what + ": space is discretized by another property than the one referred to");
                    }
                    auto& v = q.value();
                    typed(v.memory_datatype());
                    if (v.rank() != p.rank) violate("wrong-shape", what + " has another rank");
                    if (v.nr_objects() < p.objects.size() || (complete && v.nr_objects() != p.objects.size())) violate("wrong-count", what + " has values of another number of objects");
                    for (auto& o : p.objects) check_object(what, v, o, p.type);
                    break;
                }
                case 3:
                {
                    auto& v = r.collection<ldm::different_shape::variable_shape::Properties>()[name].value();
                    typed(v.memory_datatype());
                    if (v.rank() != p.rank) violate("wrong-shape", what + " has another rank");
                    if (v.nr_locations_in_time() < p.times.size() || (complete && v.nr_locations_in_time() != p.times.size())) violate("wrong-count", what + " has values at another number of locations in time");
                    for (std::size_t t = 0; t < p.times.size(); ++t)
                    {
                        auto w = v[t];
                        if (w.nr_objects() != p.times[t].size()) violate("wrong-count", what + " has values of another number of objects at a location in time");
                        for (auto& o : p.times[t]) check_object(what, w, o, p.type);
                    }
                    break;
                }
            }
        }
        template<typename V>
        void check_object(std::string const& what, V& v, Obj const& o, int type)
        {
            if (!v.contains(o.id)) violate("import-lost", what + " of object " + std::to_string(o.id) + " is missing");
            auto a = v[o.id];
            if (a.shape() != h5shape(o.shape)) violate("wrong-shape", what + " of object " + std::to_string(o.id) + " has another shape");
            compare(what + " of object " + std::to_string(o.id), texts(type, product(o.shape), [&](void* b) { a.read(b); }), o.values);
        }
        void check_set(std::string const& what, ldm::PropertySet& r, Set const& s)
        {
            if (r.has_time_domain() != s.time || r.has_space_domain() != s.space) violate("wrong-domain", what + " has other domains");
            if (s.time)
            {
                auto& td = r.time_domain();
                using E = ldm::time::Epoch;
                E::Kind k = s.kind == 0 ? E::Kind::common_era : E::Kind::formation_of_earth;
                E e = s.epoch == 0 ? E{k} : s.epoch == 1 ? E{k, s.origin} : E{k, s.origin, ldm::time::Calendar::gregorian};
                if (td.clock() != ldm::Clock{e, (ldm::time::Unit)s.unit, s.nr_units}) violate("wrong-clock", what + " has another clock");
                if (td.configuration().value<ldm::TimeDomainItemType>() != ldm::TimeDomainItemType::point) violate("wrong-domain", what + " has another time domain");
                auto v = td.value<ldm::TimePoint>();
                check_array(what + ": time points", v, 6, 1, s.points);
                auto& t = r.object_tracker();
                check_array(what + ": active set index", t.active_set_index(), 1, 1, s.set_index);
                check_array(what + ": active object index", t.active_object_index(), 1, 1, s.object_index);
                check_array(what + ": active object id", t.active_object_id(), 1, 1, s.ids);
            }
            if (s.space)
            {
                auto v = r.space_domain().value<ldm::StationarySpaceBox>();
                check_array(what + ": space boxes", v, 3, 4, s.boxes);
            }
            if (complete && r.properties().size() != s.props.size()) violate("names", what + " has other properties than those imported");
            for (auto& [n, p] : s.props) check_prop(what + "/" + n + " (" + type_name[p.type] + ", kind " + std::to_string(p.kind) + ")", r.properties(), n, p);
        }
        void check_sets(std::string const& what, ldm::PropertySets& r, std::map<std::string, Set> const& sets)
        {
            if (complete && r.size() != sets.size()) violate("names", what + " has other property sets than those imported");
            for (auto& [n, s] : sets)
            {
                if (!r.contains(n)) violate("import-lost", "property set " + what + "/" + n + " is missing");
                check_set(what + "/" + n, r[n], s);
            }
        }
        void check_phens(std::string const& what, ldm::Phenomena& r, std::map<std::string, Phen> const& phens)
        {
            if (complete && r.size() != phens.size()) violate("names", what + " has other phenomena than those imported");
            for (auto& [n, p] : phens)
            {
                if (!r.contains(n)) violate("import-lost", "phenomenon " + what + "/" + n + " is missing");
                auto& q = r[n];
                check_array(what + "/" + n + ": object ids", q.object_id(), 1, 1, p.ids);
                check_sets(what + "/" + n, q.property_sets(), p.sets);
                check_sets(what + "/" + n + " (collection)", q.collection_property_sets(), p.collections);
            }
        }
        void verify(int f, bool all)
        {
            sim::NoFaults nf;
            complete = all;
            File const& m = fs[f];
            try
            {
                if (!sim::fs_exists(path(f))) violate("import-lost", "an imported dataset does not exist");
                auto ds = ldm::open_dataset(path(f), H5F_ACC_RDONLY);
                opened = &ds;
                check_phens("", ds.phenomena(), m.phens);
                if (complete && ds.universes().size() != m.universes.size()) violate("names", "a dataset has other universes than those imported");
                for (auto& [n, u] : m.universes)
                {
                    if (!ds.universes().contains(n)) violate("import-lost", "universe " + n + " is missing");
                    check_phens(n, ds.universes()[n].phenomena(), u);
                }
            }
            catch (sim::Violation const&) { throw; }
            catch (std::exception const& x) { violate("import-unreadable", std::string("reading an imported dataset failed without a storage failure: ") + x.what()); }
        }

        void restarted(Run&) override { over = true; }
        void step(Run& x, Op const& op) override
        {
            run = &x;
            if (over || !x.real) { x.outcome(sim::oc_skipped); return; }
            if (op.kind == "import") op_import(op);
            else if (op.kind == "verify") { int f = (int)(op.arg(0) % nr_files); if (fs[f].exists) verify(f, true); else skip(); }
            else if (op.kind == "drop") drop((int)(op.arg(0) % nr_files));
            sim::log_event(sim::hash_str(op.kind));
            u64 h = 0;
            for (auto& f : fs)
                for (auto& [n, p] : f.phens)
                    for (auto& [k, s] : p.sets) h = sim::mix(h, s.props.size() * 31 + s.ids.size() * 7 + s.time * 2 + s.space);
            sim::state(h);
            x.outcome(sim::oc_ok);
        }
        void finish(Run& x) override
        {
            run = &x;
            if (over) return;
            for (int f = 0; f < nr_files; ++f) if (fs[f].exists) verify(f, true);
        }
        void generate(Rng& g, Trace& t) override
        {
            t.cfg["rasters"] = (i64)(g.next() >> 20);
            auto add = [&](char const* k) {
                Op o;
                o.kind = k;
                for (int i = 0; i < 3; ++i) o.a.push_back(g.next() >> 1);
                t.ops.push_back(o);
            };
            int n = (int)g.range(1, g.chance(0.3) ? 20 : 8);
            for (int i = 0; i < n; ++i) add(g.chance(0.9) ? "import" : g.chance(0.5) ? "verify" : "drop");
            auto fault = [&](std::uint32_t cls, std::uint32_t kind, int far, std::uint32_t count) {
                sim::Fault f;
                f.op = (std::uint32_t)g.below(t.ops.size());
                f.nth = (std::uint32_t)g.below((u64)far);
                f.cls = cls;
                f.kind = kind;
                f.arg = (std::uint32_t)g.below(5000);
                f.count = count;
                t.faults.push_back(f);
            };
            if (g.chance(0.35))
                for (int i = 1 + (int)g.below(3); i-- > 0;)
                {
                    auto cnt = g.chance(0.6) ? 1 : 1 + (std::uint32_t)g.below(30);
                    int far = g.chance(0.5) ? 6 : 60;
                    switch (g.below(9))
                    {
                        case 0: case 1: fault(sim::fc_read, sim::fk_eio, far, cnt); break;
                        case 2: fault(g.chance(0.7) ? sim::fc_open : sim::fc_stat | sim::fc_open, g.chance(0.5) ? sim::fk_emfile : sim::fk_eacces, 4, cnt); break;
                        case 3: fault(sim::fc_write, sim::fk_eio, far, cnt); break;
                        case 4: fault(sim::fc_write | sim::fc_trunc, sim::fk_enospc, far, cnt); break;
                        case 5: fault(sim::fc_read, sim::fk_short, far, cnt); break;
                        case 6: fault(sim::fc_stat | sim::fc_open, g.chance(0.5) ? sim::fk_emfile : sim::fk_eacces, 2, 1); break;
                        default: fault(sim::fc_lib, sim::fk_eio, 1 + (int)g.below(4), cnt); break;
                    }
                }
        }
    };
}  // namespace

int main(int argc, char** argv)
{
    lg::register_gdal_drivers();
    return sim::main_(argc, argv, [](std::string const&) -> sim::Harness* { return new H; });
}
