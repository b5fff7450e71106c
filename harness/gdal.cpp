// Rasters in other formats: lue::gdal on the real GDAL, on the simulated disk.
#include "simkit.hpp"
#include "gdal_seam.hpp"
#include "lue/gdal.hpp"
#include "lue/gdal/compare_rasters.hpp"
#include "lue/gdal/error.hpp"
#include <cpl_conv.h>
#include <cpl_error.h>
#include <cmath>
#include <map>
#include <memory>
#include <optional>
#include <vector>

namespace lg = lue::gdal;
using sim::Op;
using sim::Rng;
using sim::Run;
using sim::Trace;
using sim::violate;
using u64 = std::uint64_t;

namespace {
    struct Type { GDALDataType id; int size; bool flt, sgn; char const* name; };
    std::vector<Type> const types{
        {GDT_Byte, 1, false, false, "uint8"}, {GDT_UInt16, 2, false, false, "uint16"}, {GDT_Int16, 2, false, true, "int16"},
        {GDT_UInt32, 4, false, false, "uint32"}, {GDT_Int32, 4, false, true, "int32"}, {GDT_UInt64, 8, false, false, "uint64"},
        {GDT_Int64, 8, false, true, "int64"}, {GDT_Float32, 4, true, true, "float32"}, {GDT_Float64, 8, true, true, "float64"},
        {GDT_Int8, 1, false, true, "int8"}};
    constexpr int nr_types = 10;

    template<typename F>
    auto with_type(int t, F f)
    {
        switch (t)
        {
            case 0: return f(std::uint8_t{});
            case 1: return f(std::uint16_t{});
            case 2: return f(std::int16_t{});
            case 3: return f(std::uint32_t{});
            case 4: return f(std::int32_t{});
            case 5: return f(std::uint64_t{});
            case 6: return f(std::int64_t{});
            case 7: return f(float{});
            case 8: return f(double{});
            default: return f(std::int8_t{});
        }
    }
    // cell contents as bytes
    using Cell = std::uint64_t;
    Cell make_cell(int t, u64 r)
    {
        return with_type(t, [&](auto x) -> Cell {
            using T = decltype(x);
            T v;
            if constexpr (std::is_floating_point_v<T>)
            {
                switch (r % 8)
                {
                    case 0: v = T(0); break;
                    case 1: v = std::numeric_limits<T>::max(); break;
                    case 2: v = std::numeric_limits<T>::lowest(); break;
                    case 3: v = std::numeric_limits<T>::infinity(); break;
                    case 4: v = T(-1) / T(3); break;
                    default: v = T((double)(std::int64_t)(r >> 20) / 4096.0); break;
                }
            }
            else
            {
                switch (r % 8)
                {
                    case 0: v = 0; break;
                    case 1: v = std::numeric_limits<T>::max(); break;
                    case 2: v = std::numeric_limits<T>::min(); break;
                    case 3: v = (T)(r >> 60); break;
                    default: v = (T)(r >> 8); break;
                }
            }
            Cell c = 0;
            std::memcpy(&c, &v, sizeof v);
            return c;
        });
    }
    struct Band { std::vector<Cell> cells; std::vector<char> known; };
    struct Raster
    {
        bool exists = false;
        bool doubtful = false;   // storage failed and that was reported: content unknown, may or may not exist
        std::string driver;
        int type = 0, rows = 0, cols = 0;
        std::array<int, 2> block{0, 0};
        std::vector<Band> bands;
        std::optional<lg::GeoTransform> geo;
        bool has_nodata = false;
        Cell nodata = 0;
        u64 generation = 0;
        bool touched = false;   // cells were written
    };
    struct Handle
    {
        std::unique_ptr<lg::Raster> raster;
        lg::DatasetPtr ptr;
        int slot = -1;
        bool update = false;
        bool broken = false;    // storage failed while it was used: can only be closed
        int style = 0;         // ENVI: 1 windows, 2 blocks
    };

    constexpr int nr_slots = 4, nr_handles = 4;
    int gdal_failures = 0;
    std::string gdal_last;
    void on_error(CPLErr e, CPLErrorNum n, char const* msg)
    {
        if (e >= CE_Failure) { ++gdal_failures; gdal_last = msg; }
        if (getenv("SIM_H5ERR")) fprintf(stderr, "GDAL %d %d: %s\n", e, n, msg);
    }
}

namespace {
    struct H: sim::Harness
    {
        std::string profile;
        explicit H(std::string p): profile{std::move(p)} {}
        bool is(char const* p) const { return profile == p; }
        std::vector<std::string> profiles() const override { return {"G01", "G02", "G03"}; }

        Run* run = nullptr;
        Raster r[nr_slots];
        Handle h[nr_handles];
        u64 gen = 0;

        static std::string path(int s, std::string const& driver)
        {
            return "/simfs/r" + std::to_string(s) + (driver == "GTiff" ? ".tif" : driver == "HFA" ? ".img" : driver == "PCRaster" ? ".map" : ".dat");
        }
        std::string path(int s) const { return path(s, r[s].driver); }

        void begin(Run& x) override
        {
            run = &x;
            lg::register_gdal_drivers();
            sim::stuck_library_is_crash = true;
            CPLSetErrorHandler(on_error);
        }
        void skip() { sim::probe("operation not applicable"); }

        struct Res { bool threw = false, failures = false; std::uint32_t faults = 0; int lib = 0; std::string what; };
        template<typename F>
        Res call(F f)
        {
            Res x;
            auto f0 = sim::faults_fired();
            auto g0 = gdal_failures;
            auto l0 = lib_failed;
            CPLErrorReset();
            try
            {
                sim::InSut in;
                f();
            }
            catch (sim::Violation const&) { throw; }
            catch (std::exception const& e) { x.threw = true; x.what = e.what(); }
            x.faults = sim::faults_fired() - f0;
            x.failures = gdal_failures != g0;
            x.lib = lib_failed - l0;
            sim::log_event(sim::mix(x.threw, x.faults));
            return x;
        }
        void must(Res const& x, std::string const& what)
        {
            if (x.threw && x.faults == 0) violate("unexpected-error", what + " failed without a storage failure: " + x.what);
            if (!x.threw && x.lib > 0) violate("failure-not-reported", what + " failed in GDAL, but this was not reported");
            if (x.lib > 0) sim::probe("failure in GDAL reported");
        }
        int users(int s) const { int n = 0; for (auto& x : h) n += x.slot == s; return n; }
        bool updating(int s) const { for (auto& x : h) if (x.slot == s && x.update) return true; return false; }
        int free_handle() const { for (int i = 0; i < nr_handles; ++i) if (h[i].slot < 0) return i; return -1; }
        int pick_handle(u64 a, bool update) const
        {
            std::vector<int> v;
            for (int i = 0; i < nr_handles; ++i)
                if (h[i].slot >= 0 && (!update || h[i].update) && !h[i].broken && !r[h[i].slot].doubtful) v.push_back(i);
            return v.empty() ? -1 : v[a % v.size()];
        }
        // the files of a slot are removed behind LUE's back: what is left after reported failures is of no interest
        void forget(int s)
        {
            for (auto& p : sim::fs_list())
                if (p.rfind("/simfs/r" + std::to_string(s) + ".", 0) == 0) sim::fs_remove(p);
            r[s] = Raster{};
        }
        void close(int i)
        {
            auto& x = h[i];
            if (x.slot < 0) return;
            int s = x.slot;
            bool upd = x.update, broken = x.broken;
            auto q = call([&] { x.raster.reset(); x.ptr.reset(); });
            x = Handle{};
            if (q.threw) violate("unexpected-error", "closing a raster threw: " + q.what);
            if (q.faults > 0 && upd)
            {
                // there is no way for the wrapper to know or tell what failed while a raster was closed
                r[s].doubtful = true;
                sim::probe(q.failures ? "failing close reported by GDAL" : "storage failed during close");
            }
            if (broken && upd) r[s].doubtful = true;
            if (r[s].doubtful && users(s) == 0) forget(s);
        }
        void close_all(int s) { for (int i = 0; i < nr_handles; ++i) if (h[i].slot == s) close(i); }

        std::map<std::string, std::string> options(std::string const& driver, u64 a) const
        {
            std::map<std::string, std::string> o;
            if (driver == "GTiff")
            {
                switch (a % 4)
                {
                    case 0: break;
                    case 1: o["TILED"] = "YES"; o["BLOCKXSIZE"] = std::to_string(16 * (1 + a / 4 % 4)); o["BLOCKYSIZE"] = std::to_string(16 * (1 + a / 64 % 3)); break;
                    case 2: o["BLOCKYSIZE"] = std::to_string(1 + a / 4 % 9); break;
                    case 3: o["TILED"] = "YES"; o["BLOCKXSIZE"] = "16"; o["BLOCKYSIZE"] = "16"; break;
                }
                if (a / 1024 % 3 == 0) o["INTERLEAVE"] = a / 4096 % 2 ? "BAND" : "PIXEL";
                if (a / 16384 % 4 == 0) o["COMPRESS"] = a / 65536 % 2 ? "PACKBITS" : "LZW";
            }
            return o;
        }
        void op_create(Op const& op)
        {
            int s = (int)(op.arg(0) % nr_slots), i = free_handle();
            if (i < 0) { skip(); return; }
            close_all(s);
            forget(s);
            Raster m;
            u64 d = op.arg(1) % 10;
            m.driver = d < 7 ? "GTiff" : d < 9 ? "ENVI" : "HFA";
            m.type = (int)(op.arg(2) % (m.driver == "GTiff" ? nr_types : 9));
            if (m.driver == "HFA" && (m.type == 5 || m.type == 6)) m.type = 4;
            if (m.driver == "HFA" && m.type == 9) m.type = 0;
            m.rows = 1 + (int)(op.arg(3) % (op.arg(3) / 64 % 3 ? 12 : 60));
            m.cols = 1 + (int)(op.arg(4) % (op.arg(4) / 64 % 3 ? 12 : 60));
            int nb = 1 + (int)(op.arg(5) % 3);
            create(s, i, m, nb, op.arg(6));
        }
        // creates the raster described by m in slot s, with handle i for updating
        bool create(int s, int i, Raster m, int nb, u64 opt)
        {
            auto o = options(m.driver, opt);
            Handle x;
            auto q = call([&] {
                if (opt % 2) x.ptr = lg::create_dataset(m.driver, path(s, m.driver), {m.rows, m.cols}, nb, types[m.type].id, o);
                else x.ptr = lg::create_dataset(*lg::driver(m.driver), path(s, m.driver), {m.rows, m.cols}, nb, types[m.type].id, o);
                x.raster = std::make_unique<lg::Raster>(x.ptr);
            });
            must(q, "creating a raster");
            m.exists = true;
            m.generation = ++gen;
            m.bands.assign((std::size_t)nb, Band{std::vector<Cell>((std::size_t)m.rows * m.cols), std::vector<char>((std::size_t)m.rows * m.cols)});
            r[s] = m;
            x.slot = s;
            x.update = true;
            h[i] = std::move(x);
            if (q.threw || q.faults > 0)
            {
                r[s].doubtful = true;
                h[i].broken = true;
                if (q.threw) close(i);
                if (q.threw) return false;
            }
            if (!r[s].doubtful)
            {
                sim::NoFaults nf;
                r[s].block = h[i].raster->band(1).block_shape();
            }
            return true;
        }
        void op_open(Op const& op)
        {
            int s = (int)(op.arg(0) % nr_slots), i = free_handle();
            bool upd = op.arg(1) % 3 == 0;
            if (i < 0) { skip(); return; }
            if (updating(s)) close_all(s);
            if (upd) close_all(s);
            if (r[s].doubtful) { skip(); return; }
            i = free_handle();
            open(s, i, upd, op.arg(2) % 2 == 0);
        }
        void open(int s, int i, bool upd, bool try_)
        {
            auto& m = r[s];
            std::string p = m.exists ? path(s) : path(s, "GTiff");
            Handle x;
            auto mode = upd ? GA_Update : GA_ReadOnly;
            auto q = call([&] { x.ptr = try_ ? lg::try_open_dataset(p, mode) : lg::open_dataset(p, mode); });
            if (!m.exists)
            {
                if (x.ptr) violate("absent-raster-opened", "a raster that does not exist was opened");
                if (try_ && q.threw) violate("unexpected-error", "trying to open an absent raster threw: " + q.what);
                if (!try_ && !q.threw) violate("error-not-reported", "opening an absent raster was not reported as an error");
                sim::probe("absent raster");
                return;
            }
            if (!try_ && !q.threw && !x.ptr) violate("error-not-reported", "opening a raster reported success without a raster");
            if (!x.ptr)
            {
                if (q.faults == 0) violate("unexpected-error", "a stored raster cannot be opened without a storage failure: " + q.what);
                if (upd) { r[s].doubtful = true; if (users(s) == 0) forget(s); }
                sim::probe("failed to open");
                return;
            }
            x.raster = std::make_unique<lg::Raster>(x.ptr);
            x.slot = s;
            x.update = upd;
            // GDAL reads parts of the header when they are needed: what it says about itself must be right now
            if (q.lib > 0 && !q.threw && x.ptr) violate("failure-not-reported", "a raster GDAL cannot open was opened");
            if (q.faults > 0)
            {
                sim::probe("opened in spite of failures");
                x.broken = true;
                if (upd) r[s].doubtful = true;
            }
            h[i] = std::move(x);
            check_description(i);
        }
        void check_description(int i)
        {
            auto& x = h[i];
            auto& m = r[x.slot];
            if (m.doubtful || x.broken) return;
            auto& ra = *x.raster;
            // what GDAL makes of failures while it reads tags of the header when they are asked for is up to GDAL
            sim::Without w{sim::fc_read | sim::fc_write};
            auto q = call([&] {
                auto shape = ra.shape();
                if (shape[0] != m.rows || shape[1] != m.cols) violate("wrong-shape", "the shape of a raster is not the one it was created with");
                if (ra.nr_bands() != (int)m.bands.size()) violate("wrong-bands", "the number of bands is not the one the raster was created with");
                if (ra.data_type() != types[m.type].id) violate("wrong-type", "the value type is not the one the raster was created with");
                for (int b = 1; b <= (int)m.bands.size(); ++b)
                {
                    auto band = ra.band(b);
                    if (band.shape() != shape) violate("wrong-shape", "the shape of a band is not the one of its raster");
                    if (band.data_type() != types[m.type].id) violate("wrong-type", "the value type of a band is not the one it was created with");
                    auto bs = band.block_shape();
                    if (bs[0] < 1 || bs[1] < 1) violate("wrong-blocks", "a block is empty");
                    check_nodata(x, b);
                }
                if (m.geo)
                {
                    auto g = ra.geo_transform();
                    if (g != *m.geo) violate("wrong-geo-transform", "the geo-transform is not the one that was set");
                }
                bool threw = false;
                try { ra.band((int)m.bands.size() + 1); } catch (std::exception const&) { threw = true; }
                if (!threw) violate("error-not-reported", "a band that does not exist can be obtained");
            });
            // side files that cannot be read may hide the geo-transform or no-data value of other formats: reported by GDAL
            if (q.threw && q.faults == 0) violate("unexpected-error", "describing a raster failed without a storage failure: " + q.what);
        }
        void check_nodata(Handle& x, int b)
        {
            auto& m = r[x.slot];
            with_type(m.type, [&](auto v) {
                using T = decltype(v);
                auto [value, valid] = x.raster->band(b).template no_data_value<T>();
                if (!m.has_nodata)
                {
                    if (valid && m.driver == "GTiff") violate("wrong-no-data", "a band reports a no-data value although none was set");
                    return;
                }
                T want;
                std::memcpy(&want, &m.nodata, sizeof want);
                if (!valid) violate("wrong-no-data", "the no-data value that was set is reported as absent");
                if (std::memcmp(&want, &value, sizeof want) != 0 && !(value != value && want != want)) violate("wrong-no-data", "the no-data value is not the one that was set");
            });
        }
        void op_close(Op const& op)
        {
            int i = (int)(op.arg(0) % nr_handles);
            if (h[i].slot < 0) { skip(); return; }
            close(i);
        }
        void after_write(int i, Res const& q, std::string const& what)
        {
            must(q, what);
            if (q.threw || q.faults > 0)
            {
                // what GDAL was told about failures of earlier, buffered writes is between GDAL and the disk
                h[i].broken = true;
                r[h[i].slot].doubtful = true;
                sim::probe(q.threw ? "failing write reported" : "storage failed during a write that GDAL reported as done");
            }
        }
        // GDAL's driver keeps the last line used by block I/O and does not refresh it, not even when told to
        bool other_style(int i, bool blocks)
        {
            auto& x = h[i];
            if (r[x.slot].driver != "ENVI" || !x.update) return false;
            int want = blocks ? 2 : 1;
            if (!x.style) x.style = want;
            return x.style != want;
        }
        void op_write(Op const& op)
        {
            int i = pick_handle(op.arg(0), true);
            if (i < 0 || other_style(i, op.arg(2) % 4 >= 2)) { skip(); return; }
            auto& x = h[i];
            auto& m = r[x.slot];
            int b = 1 + (int)(op.arg(1) % m.bands.size());
            auto& band = m.bands[(std::size_t)b - 1];
            m.touched = true;
            Rng g{op.arg(3)};
            int size = types[m.type].size;
            u64 style = g.below(3);
            Cell flat = make_cell(m.type, g.next());
            auto value = [&] { return style == 0 ? flat : make_cell(m.type, g.next()); };
            auto put = [&](std::vector<unsigned char>& buf, std::size_t k, Cell c) { std::memcpy(buf.data() + k * (std::size_t)size, &c, (std::size_t)size); };
            switch (op.arg(2) % 4)
            {
                case 0:   // whole
                {
                    std::vector<unsigned char> buf((std::size_t)m.rows * m.cols * size);
                    std::vector<Cell> c((std::size_t)m.rows * m.cols);
                    for (std::size_t k = 0; k < c.size(); ++k) { c[k] = value(); put(buf, k, c[k]); }
                    bool shaped = op.arg(4) % 2;
                    auto q = call([&] {
                        if (shaped) x.raster->band(b).write({m.rows, m.cols}, types[m.type].id, buf.data());
                        else x.raster->band(b).write(buf.data());
                    });
                    band.cells = c;
                    std::fill(band.known.begin(), band.known.end(), 1);
                    after_write(i, q, "writing a band");
                    break;
                }
                case 1:   // window
                {
                    int y = (int)g.below((u64)m.rows), xx = (int)g.below((u64)m.cols);
                    int ny = 1 + (int)g.below((u64)(m.rows - y)), nx = 1 + (int)g.below((u64)(m.cols - xx));
                    std::vector<unsigned char> buf((std::size_t)ny * nx * size);
                    for (int a = 0; a < ny; ++a)
                        for (int c = 0; c < nx; ++c)
                        {
                            auto v = value();
                            put(buf, (std::size_t)a * nx + c, v);
                            auto k = (std::size_t)(y + a) * m.cols + xx + c;
                            band.cells[k] = v;
                            band.known[k] = 1;
                        }
                    auto q = call([&] { x.raster->band(b).write({y, xx}, {ny, nx}, types[m.type].id, buf.data()); });
                    after_write(i, q, "writing part of a band");
                    break;
                }
                case 2: case 3:   // one block, or all of them in any order
                {
                    lg::Shape bs{};
                    auto q0 = call([&] { bs = x.raster->band(b).block_shape(); });
                    must(q0, "asking for the block shape");
                    if (q0.threw) return;
                    lg::Blocks blocks{{m.rows, m.cols}, bs};
                    auto nblocks = blocks.shape_in_blocks();
                    std::vector<std::array<int, 2>> todo;
                    for (int by = 0; by < nblocks[0]; ++by)
                        for (int bx = 0; bx < nblocks[1]; ++bx) todo.push_back({by, bx});
                    for (std::size_t k = todo.size(); k > 1; --k) std::swap(todo[k - 1], todo[g.below(k)]);
                    if (op.arg(2) % 4 == 2) todo.resize(1);
                    if (todo.size() > 60) todo.resize(60);
                    for (auto& at : todo)
                    {
                        auto valid = blocks.shape_in_valid_cells(at);
                        std::vector<unsigned char> buf((std::size_t)bs[0] * bs[1] * size);
                        if (valid[0] < bs[0] || valid[1] < bs[1]) sim::probe("block sticks out");
                        for (int a = 0; a < bs[0]; ++a)
                            for (int c = 0; c < bs[1]; ++c)
                            {
                                auto v = value();
                                put(buf, (std::size_t)a * bs[1] + c, v);
                                if (a >= valid[0] || c >= valid[1]) continue;
                                int y = at[0] * bs[0] + a, xx = at[1] * bs[1] + c;
                                if (y < 0 || xx < 0 || y >= m.rows || xx >= m.cols) violate("wrong-blocks", "a valid cell of a block is outside the raster");
                                auto k = (std::size_t)y * m.cols + xx;
                                band.cells[k] = v;
                                band.known[k] = 1;
                            }
                        auto q = call([&] { x.raster->band(b).write_block(at, buf.data()); });
                        after_write(i, q, "writing a block");
                        if (h[i].broken) break;
                    }
                    break;
                }
            }
            sim::state(sim::mix((u64)m.type, sim::mix((u64)m.rows, (u64)m.cols)));
        }
        bool same(int t, void const* a, Cell want) const { return std::memcmp(a, &want, (std::size_t)types[t].size) == 0; }
        void read_check(int i, int b, u64 how, u64 seed)
        {
            if (other_style(i, how % 4 == 3)) { skip(); return; }
            read_check_(i, b, how, seed);
        }
        void read_check_(int i, int b, u64 how, u64 seed)
        {
            auto& x = h[i];
            auto& m = r[x.slot];
            auto& band = m.bands[(std::size_t)b - 1];
            Rng g{seed};
            auto size = (std::size_t)types[m.type].size;
            auto bad = [&](int y, int xx) {
                violate(x.update ? "wrong-cells-in-session" : "wrong-cells", "cell (" + std::to_string(y) + ", " + std::to_string(xx) + ") of a " + std::to_string(m.rows) + "x" + std::to_string(m.cols) + " " + m.driver + " raster of " + types[m.type].name + " is not the one written");
            };
            auto note = [&](void const* got, Cell want) {
                if (!std::getenv("SIM_H5ERR")) return;
                Cell c = 0;
                std::memcpy(&c, got, size);
                std::fprintf(stderr, "got %llx instead of %llx\n", (unsigned long long)c, (unsigned long long)want);
            };
            switch (how % 4)
            {
                case 0: case 1:
                {
                    std::vector<unsigned char> buf((std::size_t)m.rows * m.cols * size, 0xA5);
                    auto q = call([&] {
                        if (how % 4 == 0) x.raster->band(b).read(buf.data());
                        else lg::read(*lg::raster_band(*x.ptr, b), {m.rows, m.cols}, types[m.type].id, buf.data());
                    });
                    must(q, "reading a band");
                    after_read(i, q);
                    if (q.threw) { after_read_failure(i); return; }
                    if (x.broken) return;
                    for (int y = 0; y < m.rows; ++y)
                        for (int c = 0; c < m.cols; ++c)
                        {
                            auto k = (std::size_t)y * m.cols + c;
                            if (band.known[k] && !same(m.type, buf.data() + k * size, band.cells[k])) { note(buf.data() + k * size, band.cells[k]); bad(y, c); }
                        }
                    break;
                }
                case 2:
                {
                    int y = (int)g.below((u64)m.rows), xx = (int)g.below((u64)m.cols);
                    int ny = 1 + (int)g.below((u64)(m.rows - y)), nx = 1 + (int)g.below((u64)(m.cols - xx));
                    std::vector<unsigned char> buf((std::size_t)ny * nx * size, 0xA5);
                    auto q = call([&] { lg::read(*lg::raster_band(*x.ptr, b), {y, xx}, {ny, nx}, types[m.type].id, buf.data()); });
                    must(q, "reading part of a band");
                    after_read(i, q);
                    if (q.threw) { after_read_failure(i); return; }
                    if (x.broken) return;
                    for (int a = 0; a < ny; ++a)
                        for (int c = 0; c < nx; ++c)
                        {
                            auto k = (std::size_t)(y + a) * m.cols + xx + c;
                            if (band.known[k] && !same(m.type, buf.data() + ((std::size_t)a * nx + c) * size, band.cells[k])) bad(y + a, xx + c);
                        }
                    break;
                }
                case 3:
                {
                    lg::Shape bs{};
                    auto q0 = call([&] { bs = x.raster->band(b).block_shape(); });
                    must(q0, "asking for the block shape");
                    if (q0.threw) return;
                    lg::Blocks blocks{{m.rows, m.cols}, bs};
                    auto nblocks = blocks.shape_in_blocks();
                    for (int k = 0; k < 6; ++k)
                    {
                        std::array<int, 2> at{(int)g.below((u64)nblocks[0]), (int)g.below((u64)nblocks[1])};
                        auto valid = blocks.shape_in_valid_cells(at);
                        std::vector<unsigned char> buf((std::size_t)bs[0] * bs[1] * size, 0xA5);
                        auto q = call([&] { x.raster->band(b).read_block(at, buf.data()); });
                        must(q, "reading a block");
                        after_read(i, q);
                        if (q.threw) { after_read_failure(i); return; }
                    if (x.broken) return;
                        for (int a = 0; a < valid[0]; ++a)
                            for (int c = 0; c < valid[1]; ++c)
                            {
                                int y = at[0] * bs[0] + a, xx = at[1] * bs[1] + c;
                                if (y >= m.rows || xx >= m.cols || y < 0 || xx < 0) violate("wrong-blocks", "a valid cell of a block is outside the raster");
                                auto i2 = (std::size_t)y * m.cols + xx;
                                if (band.known[i2] && !same(m.type, buf.data() + ((std::size_t)a * bs[1] + c) * size, band.cells[i2])) bad(y, xx);
                            }
                    }
                    break;
                }
            }
        }
        void after_read(int i, Res const& q)
        {
            if (q.faults > 0 && !q.threw)
            {
                // GDAL says all went well: some of its drivers take what they cannot read to be zero, or ignore tags.
                // The wrapper cannot know better
                h[i].broken = true;
                sim::probe("GDAL delivered in spite of a storage failure");
            }
            if (q.faults > 0 && h[i].update) { h[i].broken = true; r[h[i].slot].doubtful = true; }
        }
        void after_read_failure(int i)
        {
            sim::probe("failing read reported");
            // what GDAL makes of a raster after one of its own failures is up to GDAL: it has to be opened again
            h[i].broken = true;
            // reading through a handle for updating writes cached blocks first
            if (h[i].update) { h[i].broken = true; r[h[i].slot].doubtful = true; }
        }
        void op_read(Op const& op)
        {
            int i = pick_handle(op.arg(0), false);
            if (i < 0) { skip(); return; }
            auto& m = r[h[i].slot];
            read_check(i, 1 + (int)(op.arg(1) % m.bands.size()), op.arg(2), op.arg(3));
        }
        void op_meta(Op const& op)
        {
            int i = pick_handle(op.arg(0), true);
            if (i < 0) { skip(); return; }
            auto& x = h[i];
            auto& m = r[x.slot];
            Rng g{op.arg(3)};
            if (op.arg(1) % 2)
            {
                lg::GeoTransform t{};
                double cell = std::ldexp(1.0 + (double)g.below(7), (int)g.range(-3, 6));
                t[0] = (double)g.range(-100000, 100000);
                t[1] = cell;
                t[3] = (double)g.range(-100000, 100000);
                t[5] = -cell;
                if (m.driver != "GTiff") { skip(); return; }
                auto q = call([&] { x.raster->set_geo_transform(t); });
                m.geo = t;
                after_write(i, q, "setting the geo-transform");
            }
            else
            {
                // other formats keep no-data values in ways of their own, and GDAL expects it to be set before cells are written
                if (m.driver != "GTiff" || m.touched) { skip(); return; }
                Cell c = make_cell(m.type, g.next());
                with_type(m.type, [&](auto v) {
                    using T = decltype(v);
                    std::memcpy(&v, &c, sizeof v);
                    if constexpr (std::is_floating_point_v<T>)
                        if (g.below(4) == 0) { v = std::numeric_limits<T>::quiet_NaN(); std::memcpy(&c, &v, sizeof v); }
                    Res q;
                    // the format has one no-data value for all bands
                    for (int b = 1; b <= (int)m.bands.size(); ++b)
                    {
                        q = call([&] { x.raster->band(b).template set_no_data_value<T>(v); });
                        m.has_nodata = true;
                        m.nodata = c;
                        after_write(i, q, "setting the no-data value");
                        if (h[i].broken) break;
                    }
                });
                // cells never written may change with it
                for (auto& b : m.bands)
                    for (auto& k : b.known)
                        if (!k) k = 0;
            }
            if (!h[i].broken && !m.doubtful) check_description(i);
        }
        void op_describe(Op const& op)
        {
            int i = pick_handle(op.arg(0), false);
            if (i < 0) { skip(); return; }
            check_description(i);
            auto& m = r[h[i].slot];
            if (op.arg(1) % 3 == 0)
            {
                auto q = call([&] {
                    if (lg::data_type(*h[i].ptr) != types[m.type].id) violate("wrong-type", "the value type is not the one the raster was created with");
                    if (lg::nr_raster_bands(*h[i].ptr) != (int)m.bands.size()) violate("wrong-bands", "the number of bands is not the one created");
                    if (lg::driver_name(path(h[i].slot)) != (m.driver == "GTiff" ? "GTiff" : m.driver == "HFA" ? "HFA" : "Unknown")) violate("wrong-driver", "the driver of a raster is not found");
                });
                must(q, "describing a raster");
            }
        }
        void op_copy(Op const& op)
        {
            int i = pick_handle(op.arg(0), false), j = free_handle(), s = (int)(op.arg(1) % nr_slots);
            if (i < 0 || j < 0 || h[i].slot == s) { skip(); return; }
            // GDAL reads all cells: those never written are whatever they are in the source
            close_all(s);
            forget(s);
            j = free_handle();
            Raster m = r[h[i].slot];
            m.driver = "GTiff";
            Handle x;
            auto q = call([&] { x.ptr = lg::create_copy(path(s, "GTiff"), *h[i].ptr, options("GTiff", op.arg(2))); x.raster = std::make_unique<lg::Raster>(x.ptr); });
            must(q, "copying a raster");
            after_read(i, q);
            m.generation = ++gen;
            r[s] = m;
            x.slot = s;
            x.update = true;
            h[j] = std::move(x);
            if (q.faults > 0) { r[s].doubtful = true; h[j].broken = true; }
            if (q.threw) { r[s].doubtful = true; close(j); return; }
            if (!h[j].broken) check_description(j);
            sim::probe("copied");
        }
        void op_delete(Op const& op)
        {
            int s = (int)(op.arg(0) % nr_slots);
            if (!r[s].exists) { skip(); return; }
            close_all(s);
            if (!r[s].exists || r[s].doubtful) { skip(); return; }
            auto p = path(s);
            auto q = call([&] { lg::delete_dataset(*lg::driver(r[s].driver), p); });
            must(q, "deleting a raster");
            if (!q.threw && q.faults == 0 && sim::fs_exists(p)) violate("not-deleted", "a deleted raster still exists");
            forget(s);
        }
        void op_blocks(Op const& op)
        {
            Rng g{op.arg(0)};
            int rows = 1 + (int)g.below(90), cols = 1 + (int)g.below(90);
            if (g.below(4) == 0) { rows = 1 + (int)g.below(8); cols = 1 + (int)g.below(8); }
            int br = 1 + (int)g.below((u64)rows), bc = 1 + (int)g.below((u64)cols);
            lg::Blocks blocks{{rows, cols}, {br, bc}};
            if (blocks.raster_shape() != lg::Shape{rows, cols} || blocks.block_shape() != lg::Shape{br, bc}) violate("wrong-blocks", "blocks have other shapes than given");
            auto n = blocks.shape_in_blocks();
            std::vector<int> seen((std::size_t)rows * cols);
            for (int y = 0; y < n[0]; ++y)
                for (int x = 0; x < n[1]; ++x)
                {
                    auto v = blocks.shape_in_valid_cells({y, x});
                    if (v[0] < 1 || v[1] < 1 || v[0] > br || v[1] > bc) violate("wrong-blocks", "a block has no valid cells or more than fit in it");
                    for (int a = 0; a < v[0]; ++a)
                        for (int c = 0; c < v[1]; ++c)
                        {
                            int yy = y * br + a, xx = x * bc + c;
                            if (yy >= rows || xx >= cols) violate("wrong-blocks", "a valid cell of a block is outside the raster");
                            ++seen[(std::size_t)yy * cols + xx];
                        }
                }
            for (auto k : seen)
                if (k != 1) violate("wrong-blocks", "a cell belongs to " + std::to_string(k) + " blocks");
            sim::log_event((u64)(rows * 100 + br));
        }

        // ---- comparing
        static bool comparable(Raster const& a)
        {
            if (!a.exists || a.doubtful || !a.geo) return false;
            for (auto& b : a.bands)
                for (auto k : b.known)
                    if (!k) return false;
            return true;
        }
        bool equal_cells(int t, bool nan_nodata, Cell a, Cell b) const
        {
            return with_type(t, [&](auto x) {
                auto y = x;
                std::memcpy(&x, &a, sizeof x);
                std::memcpy(&y, &b, sizeof y);
                if (nan_nodata && x != x && y != y) return true;
                return x == y;
            });
        }
        static bool nan_value(int t, Cell c)
        {
            return with_type(t, [&](auto x) { std::memcpy(&x, &c, sizeof x); return x != x; });
        }
        // a raster like another one, stored differently, with or without one difference
        void op_alike(Op const& op)
        {
            int a = (int)(op.arg(0) % nr_slots), s = (int)(op.arg(1) % nr_slots), i = -1;
            if (a == s) s = (s + 1) % nr_slots;
            close_all(a);
            close_all(s);
            i = free_handle();
            Rng g{op.arg(3)};
            if (!comparable(r[a]))
            {
                // make one
                forget(a);
                i = free_handle();
                if (i < 0) { skip(); return; }
                Raster m;
                m.driver = "GTiff";
                m.type = (int)g.below(nr_types);
                m.rows = 1 + (int)g.below(g.below(3) ? 12 : 60);
                m.cols = 1 + (int)g.below(g.below(3) ? 12 : 60);
                if (!create(a, i, m, 1 + (int)g.below(3), g.next())) return;
                fill_like(a, i, nullptr, g);
                close(i);
                if (!comparable(r[a])) { skip(); return; }
            }
            forget(s);
            i = free_handle();
            if (i < 0) { skip(); return; }
            Raster m = r[a], want = r[a];
            int diff = (int)(op.arg(2) % 9), nb = (int)m.bands.size();
            if (diff == 1) m.type = (m.type + 1 + (int)g.below(nr_types - 1)) % nr_types;
            if (diff == 2) nb = nb == 1 ? 2 : nb - 1;
            if (diff == 3) { if (g.below(2)) ++m.rows; else ++m.cols; }
            m.geo.reset();
            m.has_nodata = false;
            m.touched = false;
            if (!create(s, i, m, nb, g.next())) return;
            if (diff >= 1 && diff <= 3) fill_like(s, i, nullptr, g, &want);
            else fill_like(s, i, &want, g);
            if (h[i].slot == s && !h[i].broken && !r[s].doubtful)
            {
                auto& x = h[i];
                auto& mm = r[s];
                if (diff == 4 || diff == 5)
                {
                    // one cell, anywhere
                    int b = 1 + (int)g.below(mm.bands.size());
                    auto& band = mm.bands[(std::size_t)b - 1];
                    int y = g.below(3) ? (int)g.below((u64)mm.rows) : mm.rows - 1, c = g.below(3) ? (int)g.below((u64)mm.cols) : mm.cols - 1;
                    auto k = (std::size_t)y * mm.cols + c;
                    Cell v = band.cells[k];
                    for (int n = 0; n < 20 && v == band.cells[k]; ++n) v = make_cell(mm.type, g.next());
                    unsigned char buf[8];
                    std::memcpy(buf, &v, 8);
                    auto q = call([&] { x.raster->band(b).write({y, c}, {1, 1}, types[mm.type].id, buf); });
                    band.cells[k] = v;
                    after_write(i, q, "writing a cell");
                }
                if (diff == 6)
                {
                    lg::GeoTransform t = *mm.geo;
                    t[g.below(2) * 3] += 1;
                    auto q = call([&] { x.raster->set_geo_transform(t); });
                    mm.geo = t;
                    after_write(i, q, "setting the geo-transform");
                }
            }
            if (h[i].slot == s) close(i);
            if (op.arg(4) % 2) compare(a, s);
            else compare(s, a);
        }
        void fill_like(int s, int i, Raster const* like, Rng& g, Raster const* meta = nullptr)
        {
            auto& x = h[i];
            auto& m = r[s];
            if (x.broken || m.doubtful) return;
            lg::GeoTransform t{(double)g.range(-1000, 1000), 10, 0, (double)g.range(-1000, 1000), 0, -10};
            if (like) t = *like->geo;
            else if (meta && g.below(2)) t = *meta->geo;
            auto q = call([&] { x.raster->set_geo_transform(t); });
            m.geo = t;
            after_write(i, q, "setting the geo-transform");
            if (x.broken) return;
            bool nd = like ? like->has_nodata : g.below(2);
            Cell c = like ? like->nodata : make_cell(m.type, g.next());
            if (!like && types[m.type].flt && g.below(3) == 0)
                with_type(m.type, [&](auto v) {
                    using T = decltype(v);
                    if constexpr (std::is_floating_point_v<T>) { v = std::numeric_limits<T>::quiet_NaN(); std::memcpy(&c, &v, sizeof v); }
                });
            if (nd)
                for (int b = 1; b <= (int)m.bands.size() && !x.broken; ++b)
                    with_type(m.type, [&](auto v) {
                        using T = decltype(v);
                        std::memcpy(&v, &c, sizeof v);
                        auto q2 = call([&] { x.raster->band(b).template set_no_data_value<T>(v); });
                        m.has_nodata = true;
                        m.nodata = c;
                        after_write(i, q2, "setting the no-data value");
                    });
            auto size = (std::size_t)types[m.type].size;
            for (int b = 1; b <= (int)m.bands.size() && !x.broken; ++b)
            {
                auto& band = m.bands[(std::size_t)b - 1];
                std::vector<unsigned char> buf(band.cells.size() * size);
                for (std::size_t k = 0; k < band.cells.size(); ++k)
                {
                    band.cells[k] = like ? like->bands[(std::size_t)b - 1].cells[k] : g.below(3) == 0 && nd ? c : make_cell(m.type, g.next());
                    band.known[k] = 1;
                    std::memcpy(buf.data() + k * size, &band.cells[k], size);
                }
                auto q3 = call([&] { x.raster->band(b).write(buf.data()); });
                after_write(i, q3, "writing a band");
            }
        }
        void op_compare(Op const& op)
        {
            int a = (int)(op.arg(0) % nr_slots), b = (int)(op.arg(1) % nr_slots);
            close_all(a);
            close_all(b);
            compare(a, b);
        }
        void compare(int a, int b)
        {
            auto& x = r[a];
            auto& y = r[b];
            if (x.doubtful || y.doubtful) { skip(); return; }
            std::vector<std::string> d;
            auto pa = x.exists ? path(a) : path(a, "GTiff"), pb = y.exists ? path(b) : path(b, "GTiff");
            if (!x.exists || !y.exists)
            {
                auto q = call([&] { d = lg::compare_rasters(pa, pb); });
                if (!q.threw && d.empty()) violate("difference-not-reported", "a raster that does not exist compares equal");
                return;
            }
            if (!comparable(x) || !comparable(y)) { skip(); return; }
            auto q = call([&] { d = lg::compare_rasters(pa, pb); });
            if (!q.threw && q.lib > 0 && d.empty()) violate("failure-not-reported", "reading failed in GDAL while comparing rasters, but they compare equal");
            if (q.lib > 0) sim::probe("failure in GDAL reported");
            q.lib = 0;
            must(q, "comparing rasters");
            if (q.threw) { sim::probe("failing comparison reported"); return; }
            bool eq = x.rows == y.rows && x.cols == y.cols && x.type == y.type && x.bands.size() == y.bands.size() && *x.geo == *y.geo;
            if (eq) eq = x.has_nodata == y.has_nodata;
            if (eq && x.has_nodata) eq = equal_cells(x.type, true, x.nodata, y.nodata);
            bool nan_nd = x.has_nodata && nan_value(x.type, x.nodata);
            bool unclear = false;
            if (eq)
                for (std::size_t k = 0; k < x.bands.size() && eq; ++k)
                    for (std::size_t c = 0; c < x.bands[k].cells.size(); ++c)
                    {
                        auto u = x.bands[k].cells[c], v = y.bands[k].cells[c];
                        if (!nan_nd && nan_value(x.type, u) && nan_value(x.type, v)) unclear = true;
                        else if (!equal_cells(x.type, nan_nd, u, v)) { eq = false; break; }
                    }
            sim::probe(eq ? "compared equal rasters" : "compared different rasters");
            if (!eq && d.empty() && q.faults == 0) violate("difference-not-reported", "two rasters that differ compare equal");
            if (eq && !unclear && !d.empty() && q.faults == 0) violate("equal-rasters-differ", "two equal rasters are reported as different: " + d[0]);
        }

        bool over = false;   // GDAL died of a storage failure
        void restarted(Run&) override { over = true; }
        void step(Run& x, Op const& op) override
        {
            run = &x;
            if (over || !x.real) { x.outcome(sim::oc_skipped); return; }
            // GDAL does not survive failing to read back what it is writing
            bool writing = op.kind == "create" || op.kind == "copy" || op.kind == "alike" || (op.kind == "open" && op.arg(1) % 3 == 0);
            for (auto& y : h) writing = writing || (y.slot >= 0 && y.update);
            sim::Without w{writing ? (std::uint32_t)sim::fc_read : 0u};
            auto const& k = op.kind;
            if (k == "create") op_create(op);
            else if (k == "open") op_open(op);
            else if (k == "close") op_close(op);
            else if (k == "write") op_write(op);
            else if (k == "read") op_read(op);
            else if (k == "meta") op_meta(op);
            else if (k == "describe") op_describe(op);
            else if (k == "copy") op_copy(op);
            else if (k == "delete") op_delete(op);
            else if (k == "blocks") op_blocks(op);
            else if (k == "alike") op_alike(op);
            else if (k == "compare") op_compare(op);
            else if (k == "flush") { /* closing is the only way to flush */ skip(); }
            sim::log_event(sim::hash_str(k));
        }
        void finish(Run& x) override
        {
            run = &x;
            if (over) { sim::probe("ended by death of GDAL"); return; }
            sim::NoFaults nf;
            for (int i = 0; i < nr_handles; ++i) close(i);
            if (sim::fs_open_descriptors("") > 0) violate("not-released", "a raster is still open after its last handle is gone");
            for (int s = 0; s < nr_slots; ++s)
            {
                if (!r[s].exists || r[s].doubtful) continue;
                open(s, 0, false, s % 2 == 0);
                for (int b = 1; b <= (int)r[s].bands.size(); ++b)
                {
                    read_check(0, b, 0, 1);
                    read_check(0, b, 3, 7);
                }
                close(0);
                sim::probe("final verification");
            }
        }
        void generate(Rng& g, Trace& t) override
        {
            auto add = [&](char const* k) {
                Op o;
                o.kind = k;
                for (int i = 0; i < 7; ++i) o.a.push_back(g.next() >> 1);
                t.ops.push_back(o);
            };
            struct W { char const* k; int w; };
            std::vector<W> w;
            if (is("G01")) w = {{"create", 8}, {"open", 10}, {"close", 8}, {"write", 30}, {"read", 24}, {"meta", 8}, {"describe", 5}, {"copy", 5}, {"delete", 2}, {"blocks", 4}};
            if (is("G02")) w = {{"create", 5}, {"open", 18}, {"close", 14}, {"write", 14}, {"read", 30}, {"meta", 4}, {"describe", 8}, {"copy", 4}, {"delete", 2}};
            if (is("G03")) w = {{"alike", 30}, {"compare", 8}, {"create", 2}, {"write", 6}, {"meta", 4}, {"copy", 4}, {"open", 4}, {"close", 3}, {"delete", 1}};
            for (auto& x : w)
                if (g.chance(0.1) && x.w < 10) x.w = 0;
            if (!is("G03"))
            {
                add("create");
                add("write");
                t.ops.back().a[2] &= ~3ull;
            }
            int total = 0, n = (int)g.range(6, g.chance(0.3) ? 50 : 22);
            for (auto& x : w) total += x.w;
            for (int i = 0; i < n; ++i)
            {
                int k = (int)g.below((u64)total);
                for (auto& x : w)
                {
                    if (k < x.w) { add(x.k); break; }
                    k -= x.w;
                }
            }
            auto fault = [&](std::uint32_t cls, std::uint32_t kind, int far, std::uint32_t count) {
                sim::Fault f;
                f.op = (std::uint32_t)g.below(t.ops.size());
                f.nth = (std::uint32_t)g.below((u64)far);
                f.cls = cls;
                f.kind = kind;
                f.arg = (std::uint32_t)g.below(5000);
                f.count = count;
                t.faults.push_back(f);
            };
            double p = is("G02") ? 0.85 : is("G03") ? 0.3 : 0.12;
            if (g.chance(p))
                for (int i = 1 + (int)g.below(is("G02") ? 4 : 2); i-- > 0;)
                {
                    auto cnt = g.chance(0.6) ? 1 : 1 + (std::uint32_t)g.below(30);
                    int far = g.chance(0.5) ? 4 : 30;
                    switch (g.below(is("G02") ? 13 : 6))
                    {
                        case 0: case 6: case 7: case 8: fault(sim::fc_read, sim::fk_eio, far, cnt); break;
                        case 1: fault(sim::fc_open, g.chance(0.5) ? sim::fk_emfile : sim::fk_eacces, far, cnt); break;
                        case 2: fault(sim::fc_write, sim::fk_eio, far, cnt); break;
                        case 3: fault(sim::fc_write | sim::fc_trunc, sim::fk_enospc, far, cnt); break;
                        case 4: fault(sim::fc_write, sim::fk_torn, far, cnt); break;
                        case 5: fault(sim::fc_stat, sim::fk_eio, far, cnt); break;
                        case 9: fault(sim::fc_read, sim::fk_short, far, cnt); break;
                        case 10: case 11: case 12: fault(sim::fc_lib, sim::fk_eio, far, cnt); break;
                    }
                }
        }
    };
}  // namespace

int main(int argc, char** argv)
{
    lg::register_gdal_drivers();
    return sim::main_(argc, argv, [](std::string const& p) -> sim::Harness* { return new H{p}; });
}
