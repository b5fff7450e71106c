// Simulated users of the HDF5 wrapper (lue::hdf5) on the simulated disk: H01-H04.
#include "h5ledger.hpp"
#include "lue/hdf5.hpp"
#include "lue/hdf5/version.hpp"
#include "simkit.hpp"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <limits>
#include <memory>
#include <optional>

namespace h5 = lue::hdf5;
using sim::Op;
using sim::Rng;
using sim::Run;
using sim::Trace;
using sim::violate;
using u64 = std::uint64_t;
using Num = long double;   // holds every value of every supported type

namespace {

    // ------------------------------------------------------------------ types
    constexpr int nr_dt = 10;
    char const* dt_name[nr_dt] = {"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64"};
    std::size_t const dt_size[nr_dt] = {1, 2, 4, 8, 1, 2, 4, 8, 4, 8};
    template<typename F>
    auto with_dt(int dt, F f)
    {
        switch (dt)
        {
            case 0: return f(std::uint8_t{});
            case 1: return f(std::uint16_t{});
            case 2: return f(std::uint32_t{});
            case 3: return f(std::uint64_t{});
            case 4: return f(std::int8_t{});
            case 5: return f(std::int16_t{});
            case 6: return f(std::int32_t{});
            case 7: return f(std::int64_t{});
            case 8: return f(float{});
            default: return f(double{});
        }
    }
    h5::Datatype native(int dt)
    {
        return with_dt(dt, [](auto t) { return h5::native_datatype<decltype(t)>(); });
    }
    h5::Datatype standard(int dt)
    {
        return with_dt(dt, [](auto t) { return h5::Datatype{h5::StandardDatatypeTraits<decltype(t)>::type_id()}; });
    }
    bool fits(Num v, int dt)
    {
        return with_dt(dt, [v](auto t) {
            using T = decltype(t);
            if (std::isnan(v)) return !std::numeric_limits<T>::is_integer;
            if constexpr (std::numeric_limits<T>::is_integer)
                return v >= (Num)std::numeric_limits<T>::min() && v <= (Num)std::numeric_limits<T>::max() && std::floor(v) == v && !(v == 0 && std::signbit(v));
            else
                return (Num)(T)v == v;
        });
    }
    bool is_int(int dt) { return dt < 8; }
    void put(unsigned char* p, int dt, Num v)
    {
        with_dt(dt, [&](auto t) { t = (decltype(t))v; std::memcpy(p, &t, sizeof(t)); return 0; });
    }
    Num get(unsigned char const* p, int dt)
    {
        return with_dt(dt, [&](auto t) { std::memcpy(&t, p, sizeof(t)); return (Num)t; });
    }
    bool same(Num a, Num b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
    // value i of stream s that both types represent
    Num value(u64 s, u64 i, int a, int b)
    {
        // some series of values do not vary
        if (s % 14 == 0) return 0;
        if (s % 14 == 1) i = 0;
        Rng g{s * 0x9E3779B97F4A7C15ull + i * 77 + 1};
        for (int k = 0; k < 20; ++k)
        {
            u64 r = g.next();
            int t = k % 2 ? a : b;
            Num v = 0;
            if (is_int(t))
            {
                v = with_dt(t, [&](auto x) {
                    using T = decltype(x);
                    if constexpr (std::numeric_limits<T>::is_integer)
                    {
                        if (r % 16 == 0) return (Num)std::numeric_limits<T>::min();
                        if (r % 16 == 1) return (Num)std::numeric_limits<T>::max();
                        return (Num)(T)(r >> 5);
                    }
                    else return (Num)0;
                });
            }
            else
            {
                switch (r % 12)
                {
                    case 0: v = std::numeric_limits<Num>::quiet_NaN(); break;
                    case 1: v = std::numeric_limits<Num>::infinity(); break;
                    case 2: v = -0.0L; break;
                    case 3: v = t == 8 ? (Num)std::numeric_limits<float>::denorm_min() : (Num)std::numeric_limits<double>::denorm_min(); break;
                    default:
                        v = (Num)(std::int64_t)(r >> 8) / (Num)(1 << (r % 23));
                        v = t == 8 ? (Num)(float)v : (Num)(double)v;
                }
            }
            if (fits(v, a) && fits(v, b)) return v;
        }
        return (Num)(1 + i % 100);
    }
    using Shape = std::vector<u64>;
    h5::Shape rshape(Shape const& s) { return h5::Shape(s.begin(), s.end()); }
    u64 volume(Shape const& s)
    {
        u64 n = 1;
        for (auto x : s) n *= x;
        return n;
    }
    std::string str(Shape const& s)
    {
        std::string r = "(";
        for (auto x : s) r += std::to_string(x) + ",";
        return r + ")";
    }

    // ------------------------------------------------------------------ model
    struct Attr
    {
        int type = 0;      // 0..9 number, 10 text, 11..20 list of numbers, 21 shape
        std::vector<Num> nums;
        std::string text;
    };
    struct Link { bool soft = false; int target = 0; };
    struct Obj
    {
        bool group = true;
        std::vector<std::string> path;            // the names it was created under
        std::map<std::string, Link> links;        // group
        std::map<std::string, Attr> attrs;
        // array
        int dt = 0;
        Shape shape, maxshape, chunk;
        bool chunked = false, has_fill = false;
        Num fill = 0;
        std::vector<Num> data;
        std::vector<char> set;      // whether the element has a known value
    };
    struct FileState
    {
        bool exists = false;    // known content
        int mode = 0;           // 0 closed, 1 writing, 2 reading
        bool doubtful = false;  // a failed call may have left anything: give up
        bool broken = false;    // reading session in which the library lost its grip
        u64 ro_hash = 0, ro_writes = 0;
        std::vector<Obj> objs;
        std::unique_ptr<h5::File> real;
        std::map<int, std::shared_ptr<h5::PrimaryDataObject>> held;   // handles kept open
    };
    char const* names[] = {"a", "b", "group", "Ünï cödé", "x.y", "1", "data set", "Z", "lue_value", "loooooooooooooooooooooooooooooooooooooooooooooooooooooong"};

    struct H: sim::Harness
    {
        std::string profile;
        FileState files[2];
        Run* run = nullptr;
        std::uint32_t f0 = 0, r0 = 0;
        long c0 = 0;
        bool dead = false;
        bool link_rejected = false;   // HDF5 1.10 keeps the target open when it cannot create a hard link
        hid_t base_objects = 0;

        explicit H(std::string p): profile{std::move(p)} {}
        std::vector<std::string> profiles() const override { return {"H01", "H02", "H03", "H04"}; }
        bool is(char const* p) const { return profile == p; }

        std::string path(int f) const { return f ? "/simfs/two.h5" : "/simfs/one.h5"; }
        h5::File::AccessPropertyList fapl()
        {
            h5::File::AccessPropertyList pl{};
            auto const& t = run->trace;
            hid_t id = pl.id();
            if (t.c("latest")) pl.set_library_version_bounds(H5F_LIBVER_LATEST, H5F_LIBVER_LATEST);
            static std::size_t const nb[] = {1 << 20, 0, 64, 512, 4096};
            if (t.c("cache")) H5Pset_cache(id, 0, 7, nb[t.c("cache") % 5], 0.75);
            static std::size_t const sv[] = {65536, 4096, 16, 512};
            if (t.c("sieve")) H5Pset_sieve_buf_size(id, sv[t.c("sieve") % 4]);
            if (t.c("meta")) H5Pset_meta_block_size(id, t.c("meta") == 1 ? 0 : 128);
            if (t.c("mdc"))
            {
                H5AC_cache_config_t c;
                c.version = H5AC__CURR_CACHE_CONFIG_VERSION;
                if (H5Pget_mdc_config(id, &c) >= 0)
                {
                    c.set_initial_size = 1;
                    c.initial_size = 1024;
                    c.min_size = 1024;
                    c.max_size = 2048;
                    c.min_clean_fraction = 0.1;
                    H5Pset_mdc_config(id, &c);
                }
            }
            if (t.c("evict")) H5Pset_evict_on_close(id, 1);
            return pl;
        }

        void begin(Run& r) override
        {
            run = &r;
            if (r.incarnation > 0) { dead = true; return; }
            h5ledger::without_accumulator(true);
            { auto warm = h5::native_datatype<int>(); (void)h5::create_datatype(4); }
            H5Eset_auto2(H5E_DEFAULT, std::getenv("SIM_H5ERR") ? (H5E_auto2_t)H5Eprint2 : nullptr, std::getenv("SIM_H5ERR") ? stderr : nullptr);
            h5ledger::start();
        }
        void restarted(Run&) override { dead = true; }

        // ------------------------------------------------------------------ one call
        enum Expect { ok, error, either };
        struct Result { bool threw = false, failed = false; };   // failed: whatever it did cannot be known
        Result call(FileState& f, char const* what, Expect e, bool modifies, std::function<void()> const& real)
        {
            Result r;
            f0 = sim::faults_fired();
            r0 = sim::faults_fired_reading();
            c0 = h5ledger::failed_closes();
            std::string why;
            try
            {
                sim::InSut in;
                real();
            }
            catch (sim::Violation const&)
            {
                // what is seen after handles lost data while being dropped (known finding) tells nothing
                bool lost = f.mode == 1 && sim::faults_fired() != f0 && (h5ledger::failed_closes() != c0 || sim::faults_fired_reading() != r0);
                if (!f.broken && !f.doubtful && !lost) throw;
                r.threw = true;
            }
            catch (std::exception const& x)
            {
                r.threw = true;
                why = x.what();
            }
            bool faults = sim::faults_fired() != f0, closes = h5ledger::failed_closes() != c0, reads = sim::faults_fired_reading() != r0;
            if (!f.doubtful && !f.broken)
            {
                if (r.threw && e == ok && !faults)
                    violate("unexpected-error", std::string(what) + " failed without a storage failure: " + why);
                if (!r.threw && e == error) violate("accepted", std::string(what) + " must be reported as an error but was accepted");
            }
            if (faults)
            {
                if (f.mode == 2) { if (r.threw || closes || reads) f.broken = true; }
                else if (r.threw || closes || reads) f.doubtful = true;   // errors of closing are swallowed (known finding), failing reads upset the library
                sim::probe(r.threw ? "call failed with fault" : "call succeeded despite fault");
            }
            else if (r.threw) sim::probe(e == error ? "call rejected" : "call failed after fault");
            if (f.doubtful || (f.broken && r.threw)) r.failed = true;
            (void)modifies;
            return r;
        }

        // ------------------------------------------------------------------ access
        h5::Group open_group(FileState& f, std::vector<std::string> const& p, std::size_t n)
        {
            h5::Group g{*f.real};
            for (std::size_t i = 0; i < n; ++i) g = h5::Group{g, p[i]};
            return g;
        }
        std::string joined(std::vector<std::string> const& p, std::size_t n)
        {
            std::string s;
            for (std::size_t i = 0; i < n; ++i) s += (i ? "/" : "") + p[i];
            return s;
        }
        std::vector<std::string> some_path(FileState& f, int o, u64 how)
        {
            // the path it was created under, or one ending in another link to it
            if (how % 3 == 0)
            {
                for (std::size_t i = 0; i < f.objs.size(); ++i)
                    for (auto& [n, l] : f.objs[i].links)
                        if (l.target == o && (how >> 2) % 2 == (l.soft ? 1u : 0u))
                        {
                            auto p = f.objs[i].path;
                            p.push_back(n);
                            return p;
                        }
            }
            return f.objs[o].path;
        }
        h5::Group group(FileState& f, int o, u64 how)
        {
            auto p = some_path(f, o, how);
            if (p.empty()) return *f.real;
            if ((how >> 4) % 3 == 0) return h5::Group{*f.real, joined(p, p.size())};
            return open_group(f, p, p.size());
        }
        h5::Dataset array(FileState& f, int o, u64 how)
        {
            auto p = some_path(f, o, how);
            switch ((how >> 4) % 3)
            {
                case 0: return h5::open_dataset(f.real->id(), joined(p, p.size()));
                default: return h5::Dataset{open_group(f, p, p.size() - 1), p.back()};
            }
        }
        // the object through a handle that is kept, or through a new one
        void with_obj(FileState& f, int o, u64 how, std::function<void(h5::PrimaryDataObject&)> const& fn)
        {
            if (how % 5 < 2)
            {
                auto it = f.held.find(o);
                if (it == f.held.end())
                {
                    if (f.held.size() > 4) f.held.erase(f.held.begin());
                    std::shared_ptr<h5::PrimaryDataObject> h;
                    if (f.objs[o].group) h = std::make_shared<h5::Group>(group(f, o, how >> 3));
                    else h = std::make_shared<h5::Dataset>(array(f, o, how >> 3));
                    it = f.held.emplace(o, std::move(h)).first;
                }
                auto keep = it->second;
                fn(*keep);
            }
            else if (f.objs[o].group)
            {
                auto g = group(f, o, how >> 3);
                fn(g);
            }
            else
            {
                auto d = array(f, o, how >> 3);
                fn(d);
            }
        }
        int pick(FileState& f, u64 a, bool grp)
        {
            std::vector<int> c;
            for (std::size_t i = 0; i < f.objs.size(); ++i)
                if (f.objs[i].group == grp) c.push_back((int)i);
            return c.empty() ? -1 : c[a % c.size()];
        }

        // ------------------------------------------------------------------ verification
        void check_attrs(Obj& m, h5::PrimaryDataObject& r)
        {
            for (auto n : names)
                if (!m.attrs.count(n) && r.attributes().exists(n)) violate("attribute-present", std::string("attribute '") + n + "' was never written but is reported to exist");
            for (auto& [n, a] : m.attrs) check_attr(a, n, r);
        }
        void check_attr(Attr& a, std::string const& n, h5::PrimaryDataObject& r)
        {
            if (!r.attributes().exists(n) || !r.contains_attribute(n)) violate("attribute-missing", "attribute '" + n + "' was written but is reported not to exist");
            if (a.type == 10)
            {
                auto s = r.attributes().read<std::string>(n);
                if (s != a.text) violate("attribute-value", "text attribute '" + n + "' reads back as '" + s.substr(0, 60) + "' instead of '" + a.text.substr(0, 60) + "'");
                return;
            }
            auto cmp = [&](auto const& v) {
                bool eq = v.size() == a.nums.size();
                for (std::size_t i = 0; eq && i < v.size(); ++i) eq = same((Num)v[i], a.nums[i]);
                if (!eq) violate("attribute-value", "attribute '" + n + "' (a list of " + std::to_string(a.nums.size()) + ") reads back differently (" + std::to_string(v.size()) + " values)");
            };
            if (a.type == 21) { cmp(r.attributes().read<h5::Shape>(n)); return; }
            with_dt(a.type % 11 % 10, [&](auto t) {
                using T = decltype(t);
                if (a.type < 10)
                {
                    T v = r.attribute<T>(n);
                    if (!same((Num)v, a.nums[0])) violate("attribute-value", "attribute '" + n + "' reads back as another number");
                }
                else cmp(r.attributes().read<std::vector<T>>(n));
                return 0;
            });
        }
        void check_array(Obj& m, h5::Dataset& d, u64 how)
        {
            std::string who = "array " + str(m.shape) + " of " + dt_name[m.dt];
            if (d.shape() != rshape(m.shape)) violate("shape", who + " reports another shape");
            if (!(d.datatype() == standard(m.dt))) violate("type", who + " reports another type");
            auto pl = d.creation_property_list();
            if (m.has_fill)
            {
                Num v = with_dt(m.dt, [&](auto t) { return (Num)pl.template get_fill_value<decltype(t)>(); });
                if (!same(v, m.fill)) violate("fill-value", who + " reports another fill value");
            }
            int mt = m.dt;
            for (int k = 0; k < 3; ++k)
            {
                int c = (int)((how >> (4 * k)) % nr_dt);
                bool all = true;
                for (auto v : m.data)
                    if (!fits(v, c)) { all = false; break; }
                if (all) { mt = c; break; }
            }
            std::vector<unsigned char> b(m.data.size() * dt_size[mt] + 16, 0xA5);
            // elements that were never given a value have none: reading them may even fail
            try { d.read(native(mt), b.data()); }
            catch (std::exception const&)
            {
                if (sim::faults_fired() != f0 || std::find(m.set.begin(), m.set.end(), 0) == m.set.end()) throw;
                sim::probe("reading elements without value failed");
                return;
            }
            compare(b, mt, m.data, m.set, who + " read whole");
        }
        void compare(std::vector<unsigned char> const& b, int mt, std::vector<Num> const& want, std::vector<char> const& set, std::string const& what)
        {
            for (std::size_t i = 0; i < want.size(); ++i)
                if (set[i] && !same(get(&b[i * dt_size[mt]], mt), want[i]))
                    violate("wrong-value", what + ": element " + std::to_string(i) + " is " + std::to_string((double)get(&b[i * dt_size[mt]], mt)) + " instead of " + std::to_string((double)want[i]));
            for (std::size_t i = want.size() * dt_size[mt]; i < b.size(); ++i)
                if (b[i] != 0xA5) violate("overrun", what + ": more was delivered than selected");
        }
        void check_group(FileState& f, int o, h5::Group& g)
        {
            Obj& m = f.objs[o];
            std::vector<std::string> groups, all;
            for (auto& [n, l] : m.links)
            {
                all.push_back(n);
                if (f.objs[l.target].group) groups.push_back(n);
            }
            auto rg = g.group_names(), ra = g.object_names();
            std::sort(rg.begin(), rg.end());
            std::sort(ra.begin(), ra.end());
            std::sort(groups.begin(), groups.end());
            std::sort(all.begin(), all.end());
            auto list = [](std::vector<std::string> const& v) { std::string r; for (auto& x : v) r += "'" + x + "' "; return r; };
            if (rg != groups) violate("names", "names of the child groups are " + list(rg) + "instead of " + list(groups));
            if (ra != all) violate("names", "names of the child objects are " + list(ra) + "instead of " + list(all));
            for (auto n : names) check_name(f, o, g, n);
        }
        void check_name(FileState& f, int o, h5::Group& g, std::string const& n)
        {
            Obj& m = f.objs[o];
            auto it = m.links.find(n);
            bool there = it != m.links.end();
            bool grp = there && f.objs[it->second.target].group;
            if (g.contains_group(n) != grp) violate("contains", "contains_group('" + n + "') is wrong");
            if (g.contains_dataset(n) != (there && !grp)) violate("contains", "contains_dataset('" + n + "') is wrong");
            if (h5::dataset_exists(g.id(), n) != (there && !grp)) violate("contains", "dataset_exists('" + n + "') is wrong");
            if (h5::group_exists(g, n) != grp) violate("contains", "group_exists('" + n + "') is wrong");
            if (g.contains_soft_link(n) != (there && it->second.soft)) violate("contains", "contains_soft_link('" + n + "') is wrong");
            if (g.contains_hard_link(n) != (there && !it->second.soft)) violate("contains", "contains_hard_link('" + n + "') is wrong");
            if (there && it->second.soft)
            {
                auto p = g.soft_link(n).path();
                if (!resolves(f, p, it->second.target)) violate("link-path", "soft link '" + n + "' reports path '" + p + "', which does not lead to the object it was created for");
            }
        }
        // does an absolute path lead to the object, according to the model?
        bool resolves(FileState& f, std::string const& p, int target)
        {
            if (p.empty() || p[0] != '/') return false;
            int o = 0;
            std::size_t i = 1;
            while (i < p.size())
            {
                auto e = p.find('/', i);
                if (e == std::string::npos) e = p.size();
                auto it = f.objs[o].links.find(p.substr(i, e - i));
                if (it == f.objs[o].links.end()) return false;
                o = it->second.target;
                i = e + 1;
            }
            return o == target;
        }
        void verify_obj(FileState& f, int o, h5::PrimaryDataObject& r, u64 how)
        {
            Obj& m = f.objs[o];
            check_attrs(m, r);
            auto pn = r.id().pathname();
            if (!resolves(f, pn, o)) violate("pathname", "the reported path name '" + pn + "' does not lead to the object");
            if (o != 0)
            {
                auto nm = r.id().name();
                if (pn.substr(pn.size() - nm.size()) != nm || nm.find('/') != std::string::npos || (pn.size() > nm.size() && pn[pn.size() - nm.size() - 1] != '/'))
                    violate("name", "the reported name '" + nm + "' is not the last part of the path name '" + pn + "'");
            }
            if (m.group)
            {
                auto& g = dynamic_cast<h5::Group&>(r);
                check_group(f, o, g);
                if (o != 0 && g.has_parent())
                {
                    auto p = g.parent();
                    bool found = false;
                    for (std::size_t i = 0; i < f.objs.size(); ++i)
                    {
                        if (!f.objs[i].group) continue;
                        for (auto& [n, l] : f.objs[i].links)
                            if (l.target == o && resolves(f, g.parent_pathname(), (int)i)) found = true;
                    }
                    if (!found) violate("parent", "the reported parent '" + g.parent_pathname() + "' does not contain the group");
                    if (p.id().pathname().empty()) violate("parent", "the reported parent has no path name");
                }
                if (o != 0 && !g.has_parent()) violate("parent", "a group in another group reports to have no parent");
            }
            else check_array(m, dynamic_cast<h5::Dataset&>(r), how);
        }
        void verify_all(FileState& f, u64 how)
        {
            for (std::size_t o = 0; o < f.objs.size(); ++o)
            {
                with_obj(f, (int)o, how + o * 7, [&](h5::PrimaryDataObject& r) { verify_obj(f, (int)o, r, how >> 7); });
                state(f, (int)o);
            }
        }
        void state(FileState& f, int o)
        {
            Obj& m = f.objs[o];
            u64 h = sim::mix(m.group, m.dt);
            h = sim::mix(h, m.shape.size());
            for (auto x : m.shape) h = sim::mix(h, x);
            for (auto& [n, a] : m.attrs) h = sim::mix(h, (u64)a.type * 1000 + a.nums.size() + a.text.size());
            for (auto& [n, l] : m.links) h = sim::mix(h, sim::hash_str(n) + l.soft);
            sim::state(h);
        }

        // ------------------------------------------------------------------ operations
        void drop(FileState& f) { f.held.clear(); f.real.reset(); }
        void close(FileState& f, int fi)
        {
            if (!f.mode) return;
            bool was_faulty = sim::faults_fired() != 0;
            bool doubtful = f.doubtful;
            {
                f0 = sim::faults_fired();
                sim::InSut in;
                drop(f);
            }
            if (sim::faults_fired() != f0 && f.mode == 1) f.doubtful = true;
            (void)doubtful;
            auto n = H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_ALL);
            bool others = files[1 - fi].mode != 0;
            if (!others && (h5ledger::outstanding() != slots_outstanding || h5ledger::over_released()))
                violate("not-released", "after dropping every handle " + std::to_string(h5ledger::outstanding() - slots_outstanding) + " references are still held (" + h5ledger::describe() + "), " +
                        std::to_string(h5ledger::over_released()) + " were released once too often");
            if (!others && nslots_file == 0 && (n != 0 || sim::fs_open_descriptors("") != 0))
            {
                if (!was_faulty && sim::faults_fired() == f0 && !link_rejected) violate("not-released", "after dropping every handle " + std::to_string((long)n) + " HDF5 objects are still open");
                dead = true;   // the library could not let go of the file
                sim::probe("library stuck");
            }
            if (f.mode == 2)
            {
                auto c = sim::fs_content(path(fi));
                if (sim::hash_bytes(c.data(), c.size()) != f.ro_hash) violate("modified-by-reading", "a file opened for reading changed on storage");
            }
            if (f.doubtful) f.exists = false;
            f.mode = 0;
            f.doubtful = f.broken = false;
        }
        void op_create(FileState& f, int fi, Op const&)
        {
            close(f, fi);
            if (dead) return;
            f.exists = false;
            f.objs.clear();
            f.objs.emplace_back();
            f.doubtful = false;
            f.mode = 1;
            auto r = call(f, "creating a file", ok, true, [&] { f.real = std::make_unique<h5::File>(h5::create_file(path(fi), fapl())); });
            if (r.threw) { f.real.reset(); f.mode = 0; f.doubtful = false; check_idle(); return; }
            Attr a;
            a.type = 10;
            a.text = lue::hdf5_version();
            f.objs[0].attrs["hdf5_version"] = a;
            f.exists = true;
        }
        void check_idle()
        {
            if (files[0].mode || files[1].mode || nslots_file) return;
            if (h5ledger::outstanding() != slots_outstanding) violate("not-released", "a failed call kept references: " + h5ledger::describe());
            if (H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_ALL) != 0) { dead = true; sim::probe("library stuck"); }
        }
        void op_open(FileState& f, int fi, Op const& op)
        {
            if (f.mode || !f.exists) { skip(); return; }
            int mode = op.arg(1) % 2 ? 2 : 1;
            f.mode = mode;
            auto c = sim::fs_content(path(fi));
            f.ro_hash = sim::hash_bytes(c.data(), c.size());
            auto r = call(f, "opening a file", ok, false, [&] {
                f.real = std::make_unique<h5::File>(path(fi), mode == 1 ? H5F_ACC_RDWR : H5F_ACC_RDONLY, fapl());
                if (f.real->pathname() != path(fi)) violate("pathname", "an open file reports another path name");
                if (f.real->intent() != (mode == 1 ? (unsigned)H5F_ACC_RDWR : (unsigned)H5F_ACC_RDONLY)) violate("intent", "an open file reports another intent");
            });
            if (r.threw)
            {
                f.real.reset();
                if (mode == 1) f.exists = false;   // opening for writing may have marked the file
                f.mode = 0;
                f.doubtful = f.broken = false;
                check_idle();
            }
        }
        void skip() { run->outcome(sim::oc_skipped); }
        bool writable(FileState& f)
        {
            if (f.mode == 1 && !f.doubtful) return true;
            skip();
            return false;
        }
        void op_group(FileState& f, Op const& op)
        {
            if (!f.mode || f.doubtful || f.broken || f.objs.size() > 24) { skip(); return; }
            int p = pick(f, op.arg(1), true);
            std::string n = names[op.arg(2) % 10];
            bool taken = f.objs[p].links.count(n) != 0;
            auto r = call(f, "creating a group", taken || f.mode == 2 ? error : ok, true, [&] {
                with_obj(f, p, op.arg(3), [&](h5::PrimaryDataObject& o) {
                    auto g = h5::create_group(dynamic_cast<h5::Group&>(o), n);
                    if (!g.has_parent()) violate("parent", "a new group has no parent");
                    if (!(g.parent().id() == o.id())) violate("parent", "the parent of a new group is another object");
                });
            });
            if (r.threw || r.failed) return;
            Obj m;
            m.path = f.objs[p].path;
            m.path.push_back(n);
            f.objs[p].links[n] = {false, (int)f.objs.size()};
            f.objs.push_back(m);
        }
        void op_array(FileState& f, Op const& op)
        {
            if (!f.mode || f.doubtful || f.broken || f.objs.size() > 24) { skip(); return; }
            int p = pick(f, op.arg(1), true);
            std::string n = names[op.arg(2) % 10];
            bool taken = f.objs[p].links.count(n) != 0;
            Rng g{op.arg(4)};
            Obj m;
            m.group = false;
            m.dt = (int)g.below(nr_dt);
            int rank = (int)g.range(1, g.chance(0.2) ? 4 : 3);
            m.chunked = g.chance(0.75);
            bool big = g.chance(0.03) && rank < 3;
            for (int d = 0; d < rank; ++d)
            {
                u64 n2 = g.chance(0.08) ? 0 : (u64)g.range(1, rank == 1 ? 40 : rank == 2 ? 12 : rank == 3 ? 6 : 4);
                if (big) n2 = rank == 1 ? (u64)g.range(1000, 6000) : (u64)g.range(30, 90);
                if (!m.chunked && n2 == 0) n2 = 1;
                m.shape.push_back(n2);
                u64 mx = !m.chunked ? n2 : g.chance(0.5) ? H5S_UNLIMITED : n2 + g.below(5);
                if (mx == 0) mx = 3;
                m.maxshape.push_back(mx);
                u64 ch = big ? (u64)g.range(5, 70) : (u64)g.range(1, 7);
                if (mx != H5S_UNLIMITED && ch > mx) ch = mx;
                m.chunk.push_back(ch);
            }
            // HDF5 1.10 does not reset arrays of a single chunk well when they shrink
            bool single = m.chunked;
            for (int d = 0; d < rank; ++d) single = single && m.maxshape[d] != H5S_UNLIMITED && m.maxshape[d] <= m.chunk[d];
            if (single) m.maxshape[0] = H5S_UNLIMITED;
            m.has_fill = g.chance(0.5);
            if (m.has_fill) m.fill = value(g.next(), 0, m.dt, m.dt);
            m.data.assign(volume(m.shape), m.has_fill ? m.fill : (Num)0);
            m.set.assign(m.data.size(), m.has_fill);
            auto r = call(f, "creating an array", taken || f.mode == 2 ? error : ok, true, [&] {
                h5::Dataset::CreationPropertyList pl{};
                if (m.chunked) pl.set_chunk(rshape(m.chunk));
                if (m.has_fill) with_dt(m.dt, [&](auto t) { pl.set_fill_value<decltype(t)>((decltype(t))m.fill); return 0; });
                with_obj(f, p, op.arg(3), [&](h5::PrimaryDataObject& o) {
                    auto d = h5::create_dataset(o.id(), n, standard(m.dt), m.chunked ? h5::create_dataspace(rshape(m.shape), rshape(m.maxshape)) : h5::create_dataspace(rshape(m.shape)), pl);
                    if (d.shape() != rshape(m.shape)) violate("shape", "a new array has another shape than requested");
                });
            });
            if (r.threw || r.failed) return;
            m.path = f.objs[p].path;
            m.path.push_back(n);
            f.objs[p].links[n] = {false, (int)f.objs.size()};
            f.objs.push_back(m);
        }
        void op_link(FileState& f, Op const& op)
        {
            if (!f.mode || f.doubtful || f.broken) { skip(); return; }
            int p = pick(f, op.arg(1), true);
            std::string n = names[op.arg(2) % 10];
            bool taken = f.objs[p].links.count(n) != 0;
            int t = (int)(op.arg(4) % f.objs.size());
            bool soft = op.arg(5) % 2;
            if (t == 0 && !soft) t = (int)f.objs.size() - 1;
            if (t == 0) { skip(); return; }
            auto r = call(f, soft ? "creating a soft link" : "creating a hard link", taken || f.mode == 2 ? error : ok, true, [&] {
                with_obj(f, p, op.arg(3), [&](h5::PrimaryDataObject& o) {
                    auto& g = dynamic_cast<h5::Group&>(o);
                    auto tell = [&](h5::Identifier const& id) {
                        if (soft)
                        {
                            auto l = g.create_soft_link(id, n);
                            if (l.name() != n) violate("link-name", "a new soft link reports another name");
                        }
                        else
                        {
                            auto l = g.create_hard_link(id, n);
                            if (l.name() != n) violate("link-name", "a new hard link reports another name");
                        }
                    };
                    with_obj(f, t, op.arg(6), [&](h5::PrimaryDataObject& x) { tell(x.id()); });
                });
            });
            if (r.threw) link_rejected = true;
            if (r.threw || r.failed) return;
            f.objs[p].links[n] = {soft, t};
        }
        // a selection inside (or, rarely, reaching outside) the array
        bool selection(Rng& g, Shape const& s, h5::Offset& start, h5::Stride& stride, h5::Count& count, bool may_be_wrong)
        {
            bool valid = true;
            start.clear(); stride.clear(); count.clear();
            for (auto n : s)
            {
                if (n == 0) { start.push_back(0); stride.push_back(1); count.push_back(0); continue; }
                u64 st = g.below(n), sd = g.chance(0.4) ? 1 + g.below(4) : 1;
                u64 mx = (n - st + sd - 1) / sd;
                u64 c = g.chance(0.05) ? 0 : 1 + g.below(mx);
                if (c == 0) st = 0;
                start.push_back(st); stride.push_back(sd); count.push_back(c);
            }
            if (may_be_wrong && g.chance(0.12))
            {
                auto d = g.below(s.size());
                bool some = true;
                for (std::size_t i = 0; i < s.size(); ++i) some = some && (count[i] > 0 || i == d);
                if (some)
                {
                    count[d] = (s[d] - std::min<u64>(start[d], s[d])) / stride[d] + 1 + g.below(3);
                    if (count[d] == 1) start[d] = s[d] + g.below(3);
                    // last selected index beyond the end?
                    valid = start[d] + (count[d] - 1) * stride[d] < s[d];
                }
            }
            return valid;
        }
        template<typename F>
        void each(Shape const& s, h5::Offset const& start, h5::Stride const& stride, h5::Count const& count, F fn)
        {
            std::size_t r = s.size();
            std::vector<u64> i(r, 0);
            for (auto c : count)
                if (c == 0) return;
            u64 k = 0;
            for (;;)
            {
                u64 idx = 0;
                for (std::size_t d = 0; d < r; ++d) idx = idx * s[d] + start[d] + i[d] * stride[d];
                fn(k++, idx);
                std::size_t d = r;
                while (d-- > 0)
                {
                    if (++i[d] < count[d]) break;
                    i[d] = 0;
                    if (d == 0) return;
                }
            }
        }
        void op_write(FileState& f, Op const& op)
        {
            if (!f.mode || f.doubtful || f.broken) { skip(); return; }
            int o = pick(f, op.arg(1), false);
            if (o < 0) { skip(); return; }
            Obj& m = f.objs[o];
            Rng g{op.arg(4)};
            int mt = g.chance(0.6) ? m.dt : (int)g.below(nr_dt);
            h5::Offset start; h5::Stride stride; h5::Count count;
            bool whole = g.chance(0.2), fill = g.chance(0.3), strided, flat = g.chance(0.3);
            bool valid = true;
            if (whole)
            {
                start.assign(m.shape.size(), 0); stride.assign(m.shape.size(), 1);
                count = h5::Count(m.shape.begin(), m.shape.end());
            }
            else valid = selection(g, m.shape, start, stride, count, true);
            strided = std::any_of(stride.begin(), stride.end(), [](auto x) { return x != 1; });
            u64 n = 1;
            for (auto c : count) n *= c;
            u64 s = g.next();
            std::vector<unsigned char> b((fill ? 1 : n) * dt_size[mt] + 8);
            std::vector<Num> v(fill ? 1 : n);
            for (std::size_t i = 0; i < v.size(); ++i)
            {
                v[i] = value(s, i, m.dt, mt);
                put(&b[i * dt_size[mt]], mt, v[i]);
            }
            if (std::getenv("SIM_H5ERR"))
            {
                fprintf(stderr, "   array %d %s chunk %s chunked %d fill %d dt %s mt %s: fill %d flat %d whole %d valid %d: ", o, str(m.shape).c_str(), str(m.chunk).c_str(), m.chunked, m.has_fill, dt_name[m.dt], dt_name[mt], fill, flat, whole, valid);
                for (std::size_t i = 0; i < count.size(); ++i) fprintf(stderr, " %ld:%ld:%ld", (long)start[i], (long)stride[i], (long)count[i]);
                fprintf(stderr, "\n");
            }
            auto r = call(f, fill ? "filling a selection" : "writing a selection", valid && f.mode == 1 ? ok : (n == 0 && f.mode == 2) ? either : error, true, [&] {
                with_obj(f, o, op.arg(3), [&](h5::PrimaryDataObject& x) {
                    auto& d = dynamic_cast<h5::Dataset&>(x);
                    h5::Hyperslab hs = strided || g.chance(0.5) ? h5::Hyperslab{start, stride, count} : h5::Hyperslab{start, count};
                    if (fill) d.fill(native(mt), hs, b.data());
                    else if (whole && g.chance(0.5)) d.write(native(mt), b.data());
                    else if (flat) d.write(native(mt), h5::create_dataspace(h5::Shape{n}), hs, b.data());
                    else d.write(native(mt), hs, b.data());
                });
            });
            if (strided) sim::probe("strided selection");
            if (n == 0) sim::probe("empty selection");
            if (!valid) sim::probe("selection reaching outside");
            if (mt != m.dt) sim::probe("memory type differs from file type");
            if (r.threw || r.failed || !valid) return;
            each(m.shape, start, stride, count, [&](u64 k, u64 idx) { m.data[idx] = v[fill ? 0 : k]; m.set[idx] = 1; });
        }
        void op_read(FileState& f, Op const& op)
        {
            if (!f.mode || f.doubtful || f.broken) { skip(); return; }
            int o = pick(f, op.arg(1), false);
            if (o < 0) { skip(); return; }
            Obj& m = f.objs[o];
            Rng g{op.arg(4)};
            h5::Offset start; h5::Stride stride; h5::Count count;
            bool valid = selection(g, m.shape, start, stride, count, true), flat = g.chance(0.3);
            u64 n = 1;
            for (auto c : count) n *= c;
            std::vector<Num> want(n);
            std::vector<char> set(n, 1);
            if (valid) each(m.shape, start, stride, count, [&](u64 k, u64 idx) { want[k] = m.data[idx]; set[k] = m.set[idx]; });
            bool all = std::find(set.begin(), set.end(), 0) == set.end();
            int mt = (int)g.below(nr_dt);
            if (g.chance(0.5)) mt = m.dt;
            for (auto x : want)
                if (!fits(x, mt)) { mt = m.dt; break; }
            std::vector<unsigned char> b(n * dt_size[mt] + 16, 0xA5);
            call(f, "reading a selection", !valid ? error : all ? ok : either, false, [&] {
                with_obj(f, o, op.arg(3), [&](h5::PrimaryDataObject& x) {
                    auto& d = dynamic_cast<h5::Dataset&>(x);
                    h5::Hyperslab hs{start, stride, count};
                    if (flat) d.read(native(mt), h5::create_dataspace(h5::Shape{n}), hs, b.data());
                    else d.read(native(mt), hs, b.data());
                });
                if (valid) compare(b, mt, want, set, "selection of array " + str(m.shape));
            });
        }
        void op_resize(FileState& f, Op const& op)
        {
            if (!f.mode || f.doubtful || f.broken) { skip(); return; }
            int o = pick(f, op.arg(1), false);
            if (o < 0) { skip(); return; }
            Obj& m = f.objs[o];
            Rng g{op.arg(4)};
            Shape s;
            bool valid = true, changed = false;
            for (std::size_t d = 0; d < m.shape.size(); ++d)
            {
                u64 lim = m.shape.size() == 1 ? 60 : m.shape.size() == 2 ? 14 : 7;
                u64 n = g.chance(0.4) ? m.shape[d] : g.chance(0.06) ? 0 : 1 + g.below(lim);
                if (m.maxshape[d] != H5S_UNLIMITED && n > m.maxshape[d])
                {
                    if (g.chance(0.7)) n = m.maxshape[d];
                    else valid = false;
                }
                changed = changed || n != m.shape[d];
                s.push_back(n);
            }
            if (!m.chunked && changed) valid = false;
            bool must_fail = !valid || f.mode == 2;
            if (!m.chunked && !changed) must_fail = true;   // decided by the library: either is fine
            auto r = call(f, "resizing an array", (!m.chunked && !changed) || (f.mode == 2 && !changed) ? either : must_fail ? error : ok, true, [&] {
                with_obj(f, o, op.arg(3), [&](h5::PrimaryDataObject& x) { dynamic_cast<h5::Dataset&>(x).resize(rshape(s)); });
            });
            if (r.threw || r.failed) return;
            std::vector<Num> nd(volume(s), m.has_fill ? m.fill : (Num)0);
            h5::Offset z(s.size(), 0);
            h5::Stride one(s.size(), 1);
            h5::Count common;
            for (std::size_t d = 0; d < s.size(); ++d) common.push_back(std::min(s[d], m.shape[d]));
            std::vector<Num> keep;
            std::vector<char> kset, nset(nd.size(), m.has_fill);
            each(m.shape, z, one, common, [&](u64, u64 i) { keep.push_back(m.data[i]); kset.push_back(m.set[i]); });
            each(s, z, one, common, [&](u64 k, u64 i) { nd[i] = keep[k]; nset[i] = kset[k]; });
            m.shape = s;
            m.data = nd;
            m.set = nset;
        }
        void op_attr(FileState& f, Op const& op)
        {
            if (!f.mode || f.doubtful || f.broken) { skip(); return; }
            int o = (int)(op.arg(1) % f.objs.size());
            Obj& m = f.objs[o];
            std::string n = names[op.arg(2) % 10];
            Rng g{op.arg(4)};
            Attr a;
            auto it = m.attrs.find(n);
            bool isnew = it == m.attrs.end();
            if (isnew) a.type = g.chance(0.35) ? 10 : g.chance(0.5) ? (int)g.below(10) : g.chance(0.2) ? 21 : 11 + (int)g.below(10);
            else a.type = it->second.type;
            if (a.type == 10)
            {
                static char const* parts[] = {"x", "Text ", "é", "/", "\n", "0123456789", " "};
                for (u64 k = isnew && g.chance(0.1) ? 0 : 1 + g.below(g.chance(0.2) ? 60 : 6); k-- > 0;) a.text += parts[g.below(7)];
                if (g.chance(0.1)) a.text.clear();
            }
            else
            {
                u64 cnt = a.type < 10 ? 1 : g.chance(0.05) ? 0 : 1 + g.below(g.chance(0.2) ? 100 : 6);
                int dt = a.type == 21 ? 3 : a.type % 11 % 10;
                for (u64 k = 0; k < cnt; ++k) a.nums.push_back(value(op.arg(4), k, dt, dt));
            }
            if (!isnew && (a.text.size() != it->second.text.size() || a.nums.size() != it->second.nums.size())) sim::probe("attribute overwritten by value of another length");
            if (f.mode == 2 && !isnew) f.broken = true;   // HDF5 keeps the refused value in memory
            auto r = call(f, "writing an attribute", a.type == 10 && a.text.empty() ? either : f.mode == 1 ? ok : error, true, [&] {
                with_obj(f, o, op.arg(3), [&](h5::PrimaryDataObject& x) {
                    auto& at = x.attributes();
                    if (a.type == 10) at.write<std::string>(n, a.text);
                    else if (a.type == 21) at.write<h5::Shape>(n, h5::Shape(a.nums.begin(), a.nums.end()));
                    else with_dt(a.type % 11 % 10, [&](auto t) {
                        using T = decltype(t);
                        if (a.type < 10) at.write<T>(n, (T)a.nums[0]);
                        else
                        {
                            std::vector<T> v;
                            for (auto q : a.nums) v.push_back((T)q);
                            at.write<std::vector<T>>(n, v);
                        }
                        return 0;
                    });
                });
            });
            if (r.threw || r.failed) return;
            m.attrs[n] = a;
        }
        void op_rattr(FileState& f, Op const& op)
        {
            if (!f.mode || f.doubtful || f.broken) { skip(); return; }
            int o = (int)(op.arg(1) % f.objs.size());
            Obj& m = f.objs[o];
            std::string n = names[op.arg(2) % 10];
            auto it = m.attrs.find(n);
            if (it != m.attrs.end())
                call(f, "reading an attribute", ok, false, [&] { with_obj(f, o, op.arg(3), [&](h5::PrimaryDataObject& x) { check_attr(it->second, n, x); }); });
            else
            {
                call(f, "asking for an attribute", ok, false, [&] {
                    with_obj(f, o, op.arg(3), [&](h5::PrimaryDataObject& x) {
                        if (x.attributes().exists(n)) violate("attribute-present", "attribute '" + n + "' was never written but is reported to exist");
                    });
                });
                call(f, "reading an attribute never written", error, false, [&] {
                    with_obj(f, o, op.arg(3), [&](h5::PrimaryDataObject& x) { (void)x.attributes().read<int>(n); });
                });
            }
        }
        void op_equal(FileState& f, int fi, Op const& op)
        {
            if (!f.mode || f.doubtful || f.broken) { skip(); return; }
            int o = (int)(op.arg(1) % f.objs.size());
            FileState* f2 = &f;
            if (op.arg(2) % 4 == 0 && files[1 - fi].mode && !files[1 - fi].doubtful && !files[1 - fi].broken) f2 = &files[1 - fi];
            int o2 = op.arg(4) % 3 ? (int)(op.arg(4) / 3 % f2->objs.size()) : std::min(o, (int)f2->objs.size() - 1);
            bool want = f2 == &f && o == o2;
            call(f, "comparing handles", ok, false, [&] {
                with_obj(f, o, op.arg(3), [&](h5::PrimaryDataObject& x) {
                    with_obj(*f2, o2, op.arg(5), [&](h5::PrimaryDataObject& y) {
                        if ((x.id() == y.id()) != want || (y.id() != x.id()) == want || (x == y) != want || (x != y) == want)
                            violate("equality", std::string("two handles to ") + (want ? "the same object" : "different objects") + " compare " + (want ? "unequal" : "equal"));
                    });
                });
            });
        }
        void op_lookup(FileState& f, Op const& op)
        {
            if (!f.mode || f.doubtful || f.broken) { skip(); return; }
            int p = pick(f, op.arg(1), true);
            Obj& m = f.objs[p];
            std::string n = names[op.arg(2) % 10];
            auto it = m.links.find(n);
            bool there = it != m.links.end();
            bool grp = there && f.objs[it->second.target].group;
            // through a path of names that may not exist at all
            std::string deep = std::string(names[op.arg(4) % 10]) + "/" + n;
            call(f, "asking for a name", ok, false, [&] {
                with_obj(f, p, op.arg(3), [&](h5::PrimaryDataObject& x) {
                    auto& g = dynamic_cast<h5::Group&>(x);
                    check_name(f, p, g, n);
                    auto l1 = m.links.find(names[op.arg(4) % 10]);
                    bool dg = false;
                    if (l1 != m.links.end())
                    {
                        auto& mm = f.objs[l1->second.target];
                        if (!mm.group) return;
                        auto l2 = mm.links.find(n);
                        dg = l2 != mm.links.end() && f.objs[l2->second.target].group;
                    }
                    if (g.contains_group(deep) != dg) violate("contains", "contains_group('" + deep + "') is wrong");
                });
            });
            call(f, "opening a group", grp ? ok : error, false, [&] {
                with_obj(f, p, op.arg(3), [&](h5::PrimaryDataObject& x) {
                    h5::Group g{dynamic_cast<h5::Group&>(x), n};
                    if (!(g.id() == group(f, it->second.target, 1).id())) violate("equality", "a group looked up by name is another object");
                });
            });
            if (f.broken || f.doubtful) return;
            call(f, "opening an array", there && !grp ? ok : error, false, [&] {
                with_obj(f, p, op.arg(3), [&](h5::PrimaryDataObject& x) {
                    h5::Dataset d = op.arg(5) % 2 ? h5::Dataset{dynamic_cast<h5::Group&>(x), n} : h5::open_dataset(x.id(), n);
                    if (!(d.id() == array(f, it->second.target, 1).id())) violate("equality", "an array looked up by name is another object");
                });
            });
        }

        // ------------------------------------------------------------------ H04: programs on handles
        static constexpr int nr_slots = 8;
        std::unique_ptr<h5::Identifier> slot[nr_slots];   // null: no handle at all
        hid_t model_id[nr_slots] = {};                    // <= 0: owns nothing
        long slots_outstanding = 0;
        long nslots_file = 0;
        std::vector<h5::Identifier> bag;                  // a container that grows and shrinks
        std::vector<hid_t> bag_model;
        std::vector<h5::Group> groups;                    // objects made of handles
        std::vector<h5::Dataset> arrays;
        std::set<hid_t> known;
        void check_slots(FileState& f)
        {
            if (f.doubtful || f.broken) return;
            std::map<hid_t, long> want;
            for (int i = 0; i < nr_slots; ++i)
                if (slot[i] && model_id[i] > 0) ++want[model_id[i]];
            for (auto x : bag_model)
                if (x > 0) ++want[x];
            for (int i = 0; i < nr_slots; ++i)
            {
                if (!slot[i]) continue;
                hid_t id = *slot[i];
                if (model_id[i] <= 0)
                {
                    if (slot[i]->is_valid()) violate("owns-object", "a handle that was moved from or never had an object owns one");
                }
                else if (id != model_id[i] || !slot[i]->is_valid()) violate("lost-object", "a handle lost its object");
            }
            for (std::size_t i = 0; i < bag.size(); ++i)
                if ((bag_model[i] > 0) != bag[i].is_valid() || (bag_model[i] > 0 && (hid_t)bag[i] != bag_model[i])) violate("lost-object", "a handle in a container lost its object");
            for (auto x : known)
            {
                auto it = want.find(x);
                bool open = H5Iis_valid(x) > 0;
                if (it == want.end())
                {
                    if (open) violate("not-released", "an object is still open after its last handle is gone");
                }
                else
                {
                    if (!open) violate("lost-object", "an object was closed although a handle still refers to it");
                    if (H5Iget_ref(x) != it->second)
                        violate("reference-count", "an object with " + std::to_string(it->second) + " handles has reference count " + std::to_string(H5Iget_ref(x)));
                }
            }
            for (auto it = known.begin(); it != known.end();) it = want.count(*it) ? std::next(it) : known.erase(it);
            if (h5ledger::over_released()) violate("closed-twice", "an object was closed more often than it was opened");
            long n = 0;
            for (auto& [id, k] : want) n += k;
            slots_outstanding = n;
        }
        h5::Identifier fresh(FileState& f, u64 a, hid_t& mid)
        {
            int o = (int)(a % f.objs.size());
            auto& m = f.objs[o];
            std::string p = m.path.empty() ? "/" : joined(m.path, m.path.size());
            h5::Identifier r;
            switch ((a >> 8) % 8)
            {
                case 0: r = h5::Identifier{H5Screate(H5S_SCALAR), H5Sclose}; break;
                case 1: r = h5::Identifier{H5Tcopy(H5T_NATIVE_INT), H5Tclose}; break;
                case 2: r = h5::Identifier{H5Pcreate(H5P_DATASET_ACCESS), H5Pclose}; break;
                case 3: r = h5::Identifier{H5Gopen2(f.real->id(), "no such thing", H5P_DEFAULT), H5Gclose}; break;   // fails
                case 4: r = h5::Identifier{}; break;
                default:
                    r = m.group ? h5::Identifier{H5Gopen2(f.real->id(), p.c_str(), H5P_DEFAULT), H5Gclose}
                                : h5::Identifier{H5Dopen2(f.real->id(), p.c_str(), H5P_DEFAULT), H5Dclose};
            }
            mid = (hid_t)r > 0 ? (hid_t)r : 0;
            if (mid > 0) known.insert(mid);
            return r;
        }
        void op_handles(FileState& f, Op const& op)
        {
            if (!f.mode || f.doubtful || f.broken) { skip(); return; }
            int i = (int)(op.arg(1) % nr_slots), j = (int)(op.arg(2) % nr_slots);
            auto r = call(f, "using handles", ok, false, [&] {
                hid_t mid = 0;
                switch (op.arg(4) % 16)
                {
                    case 0: case 1: case 2:
                    {
                        auto h = fresh(f, op.arg(5), mid);
                        if (slot[i]) *slot[i] = std::move(h);
                        else slot[i] = std::make_unique<h5::Identifier>(std::move(h));
                        model_id[i] = mid;
                        if (h.is_valid()) violate("owns-object", "a handle that was moved from owns an object");
                        break;
                    }
                    case 3: case 4:   // copy construct
                        if (!slot[i]) break;
                        if (i == j) break;
                        slot[j] = std::make_unique<h5::Identifier>(*slot[i]);
                        model_id[j] = model_id[i];
                        break;
                    case 5: case 6:   // copy assign, also to itself
                        if (!slot[i] || !slot[j]) break;
                        if (i == j) sim::probe("self-assignment");
                        *slot[j] = *slot[i];
                        model_id[j] = model_id[i];
                        break;
                    case 7:   // move construct
                        if (!slot[i] || i == j) break;
                        slot[j] = std::make_unique<h5::Identifier>(std::move(*slot[i]));
                        model_id[j] = model_id[i];
                        model_id[i] = 0;
                        break;
                    case 8:   // move assign
                        if (!slot[i] || !slot[j] || i == j) break;
                        *slot[j] = std::move(*slot[i]);
                        model_id[j] = model_id[i];
                        model_id[i] = 0;
                        break;
                    case 9:   // move to itself: may keep or lose the object
                        if (!slot[i]) break;
                        {
                            auto& x = *slot[i];
                            auto* y = &x;
                            x = std::move(*y);
                            if (!x.is_valid()) model_id[i] = 0;
                            sim::probe("self-move");
                        }
                        break;
                    case 10: case 11:
                        slot[i].reset();
                        model_id[i] = 0;
                        break;
                    case 12:
                        if (!slot[i] || !slot[j]) break;
                        std::swap(*slot[i], *slot[j]);
                        if (i != j) std::swap(model_id[i], model_id[j]);
                        else if (!slot[i]->is_valid()) model_id[i] = 0;
                        break;
                    case 13:
                        if (!slot[i]) break;
                        bag.push_back(*slot[i]);
                        bag_model.push_back(model_id[i]);
                        break;
                    case 14:
                        if (bag.empty()) break;
                        if (op.arg(5) % 2)
                        {
                            bag.erase(bag.begin() + (long)(op.arg(5) / 2 % bag.size()));
                            bag_model.erase(bag_model.begin() + (long)(op.arg(5) / 2 % (bag.size() + 1)));
                        }
                        else { bag.clear(); bag_model.clear(); }
                        break;
                    case 15:
                    {
                        // an exception passes while handles are alive
                        try
                        {
                            h5::Identifier a = fresh(f, op.arg(5), mid), b{a}, c;
                            c = b;
                            throw std::logic_error("stop");
                        }
                        catch (std::logic_error const&) {}
                        break;
                    }
                }
                check_slots(f);
            });
            if (r.threw) sim::probe("handle operation failed");
        }
        void op_objects(FileState& f, Op const& op)
        {
            // groups and arrays are copied, assigned and dropped as a whole
            if (!f.mode || f.doubtful || f.broken) { skip(); return; }
            call(f, "using object handles", ok, false, [&] {
                Rng g{op.arg(4)};
                auto work = [&](auto& v, auto make, bool grp) {
                    switch (g.below(6))
                    {
                        case 0: case 1:
                        {
                            int o = pick(f, g.next(), grp);
                            if (o > 0 || (grp && o == 0)) v.push_back(make(o));
                            break;
                        }
                        case 2: if (!v.empty()) { auto c = v[g.below(v.size())]; v.push_back(c); } break;
                        case 3: if (!v.empty()) { auto& a = v[g.below(v.size())]; auto& b = v[g.below(v.size())]; a = b; } break;
                        case 4: if (!v.empty()) v.erase(v.begin() + (long)g.below(v.size())); break;
                        case 5: if (v.size() > 1) std::swap(v[0], v[v.size() - 1]); break;
                    }
                    for (auto& x : v)
                    {
                        if (!x.id().is_valid()) violate("lost-object", "a copied object lost its handle");
                        (void)x.attributes().exists("a");
                    }
                };
                work(groups, [&](int o) { return group(f, o, g.next()); }, true);
                work(arrays, [&](int o) { return array(f, o, g.next()); }, false);
                if (groups.size() > 6) groups.clear();
                if (arrays.size() > 6) arrays.clear();
                if (h5ledger::over_released()) violate("closed-twice", "an object was closed more often than it was opened");
            });
        }
        void drop_slots()
        {
            for (int i = 0; i < nr_slots; ++i) { slot[i].reset(); model_id[i] = 0; }
            bag.clear();
            bag_model.clear();
            groups.clear();
            arrays.clear();
        }

        void step(Run& r, Op const& op) override
        {
            run = &r;
            if (dead || !r.real) return;
            int fi = (int)(op.arg(0) % 4 == 0 ? 1 : 0);
            if (is("H04") && op.kind != "create") fi = 0;
            auto& f = files[fi];
            auto const& k = op.kind;
            if (k == "close" || k == "create" || k == "reopen")
            {
                if (fi == 0)
                {
                    sim::InSut in;
                    auto f0_ = sim::faults_fired();
                    drop_slots();
                    if (sim::faults_fired() != f0_ && f.mode == 1) f.doubtful = true;
                    for (auto x : known)
                        if (sim::faults_fired() == f0_ && !f.doubtful && !f.broken && H5Iis_valid(x) > 0) violate("not-released", "an object is still open after its last handle is gone");
                    known.clear();
                    slots_outstanding = 0;
                }
            }
            if (k == "create") op_create(f, fi, op);
            else if (k == "open") op_open(f, fi, op);
            else if (k == "close") close(f, fi);
            else if (k == "reopen") { close(f, fi); if (!dead) op_open(f, fi, op); }
            else if (k == "cap") sim::fs_set_capacity(op.arg(1) % 3 == 0 ? 0 : 2000 + op.arg(1) % 60000);
            else if (k == "flush") { if (f.mode == 1 && !f.doubtful) call(f, "flushing", ok, false, [&] { f.real->flush(); }); else skip(); }
            else if (k == "group") op_group(f, op);
            else if (k == "array") op_array(f, op);
            else if (k == "link") op_link(f, op);
            else if (k == "write") op_write(f, op);
            else if (k == "read") op_read(f, op);
            else if (k == "resize") op_resize(f, op);
            else if (k == "attr") op_attr(f, op);
            else if (k == "rattr") op_rattr(f, op);
            else if (k == "equal") op_equal(f, fi, op);
            else if (k == "lookup") op_lookup(f, op);
            else if (k == "handles") op_handles(f, op);
            else if (k == "objects") op_objects(f, op);
            else if (k == "verify") { if (f.mode && !f.doubtful && !f.broken) call(f, "reading everything", ok, false, [&] { verify_all(f, op.arg(3)); }); else skip(); }
            sim::log_event(sim::hash_str(k));
        }
        void finish(Run& r) override
        {
            run = &r;
            if (dead) return;
            sim::NoFaults nf;
            f0 = sim::faults_fired();
            drop_slots();
            known.clear();
            slots_outstanding = 0;
            for (int fi = 0; fi < 2; ++fi)
            {
                auto& f = files[fi];
                close(f, fi);
                if (dead) return;
            }
            for (int fi = 0; fi < 2; ++fi)
            {
                auto& f = files[fi];
                if (!f.exists) continue;
                f.mode = 2;
                try
                {
                    f.real = std::make_unique<h5::File>(path(fi), H5F_ACC_RDONLY, fapl());
                    verify_all(f, 3);
                }
                catch (sim::Violation const&) { throw; }
                catch (std::exception const& x)
                {
                    violate("unexpected-error", std::string("final verification failed without a storage failure: ") + x.what());
                }
                auto c = sim::fs_content(path(fi));
                f.ro_hash = sim::hash_bytes(c.data(), c.size());
                close(f, fi);
                sim::probe("final verification");
            }
        }
        void generate(Rng& g, Trace& t) override;
    };

    struct W { char const* k; int w; };
    void H::generate(Rng& g, Trace& t)
    {
        t.cfg["latest"] = g.below(2);
        t.cfg["cache"] = t.c("latest") ? g.below(2) * 3 : g.below(5);   // HDF5 1.10 loses single-chunk arrays without a cache
        t.cfg["sieve"] = g.below(4);
        t.cfg["meta"] = g.below(3);
        t.cfg["mdc"] = g.below(3) == 0;
        t.cfg["evict"] = g.below(4) == 0;
        auto add = [&](char const* k) {
            Op o;
            o.kind = k;
            for (int i = 0; i < 7; ++i) o.a.push_back(g.next() >> 1);
            t.ops.push_back(o);
        };
        std::vector<W> w;
        if (is("H01")) w = {{"array", 10}, {"write", 34}, {"read", 20}, {"resize", 12}, {"group", 3}, {"reopen", 6}, {"flush", 3}, {"verify", 4}, {"link", 2}, {"attr", 2}, {"cap", 1}};
        if (is("H02")) w = {{"array", 4}, {"group", 5}, {"attr", 40}, {"rattr", 24}, {"reopen", 6}, {"flush", 3}, {"verify", 4}, {"link", 6}, {"write", 3}, {"cap", 1}};
        if (is("H03")) w = {{"array", 12}, {"group", 18}, {"link", 24}, {"lookup", 20}, {"equal", 14}, {"reopen", 6}, {"flush", 2}, {"verify", 6}, {"attr", 3}};
        if (is("H04")) w = {{"handles", 60}, {"objects", 12}, {"group", 4}, {"array", 4}, {"attr", 3}, {"reopen", 2}, {"write", 3}, {"verify", 1}};
        for (auto& x : w)
            if (g.chance(0.1) && x.w < 10) x.w = 0;
        add("create"); t.ops.back().a[0] = 1;
        if (!is("H04") && g.chance(0.4)) { add("create"); t.ops.back().a[0] = 0; }
        for (int i = 0; i < 2; ++i) { add("group"); t.ops.back().a[0] = 1; }
        for (int i = 0; i < 3; ++i) { add("array"); t.ops.back().a[0] = 1; }
        int total = 0, n = (int)g.range(15, g.chance(0.3) ? 120 : 50);
        for (auto& x : w) total += x.w;
        for (int i = 0; i < n; ++i)
        {
            int k = (int)g.below((u64)total);
            for (auto& x : w)
            {
                if (k < x.w) { add(x.k); break; }
                k -= x.w;
            }
        }
        auto op_at = [&](std::size_t lo) { return (std::uint32_t)(lo + g.below(t.ops.size() - lo)); };
        auto fault = [&](std::uint32_t cls, std::uint32_t kind, int far, std::uint32_t count) {
            sim::Fault f;
            f.op = op_at(1);
            f.nth = (std::uint32_t)g.below((u64)far);
            f.cls = cls;
            f.kind = kind;
            f.arg = (std::uint32_t)g.below(5000);
            f.count = count;
            t.faults.push_back(f);
        };
        for (int i = g.chance(0.6) ? (int)g.below(5) : 0; i-- > 0;)
            fault(g.chance(0.5) ? sim::fc_read : sim::fc_write, g.chance(0.5) ? sim::fk_short : sim::fk_eintr, 6, 1 + (std::uint32_t)g.below(4));
        if (g.chance(0.35))
            for (int i = 1 + (int)g.below(2); i-- > 0;)
            {
                auto cnt = g.chance(0.7) ? 1 : 1 + (std::uint32_t)g.below(20);
                int far = g.chance(0.5) ? 4 : 30;
                switch (g.below(5))
                {
                    case 0: fault(sim::fc_read, sim::fk_eio, far, cnt); break;
                    case 1: fault(sim::fc_write, sim::fk_eio, far, cnt); break;
                    case 2: fault(sim::fc_write | sim::fc_trunc, sim::fk_enospc, far, cnt); break;
                    case 3: fault(sim::fc_write, sim::fk_torn, far, cnt); break;
                    case 4: fault(sim::fc_open | sim::fc_stat | sim::fc_trunc, sim::fk_eio, far, cnt); break;
                }
            }
    }
}  // namespace

int main(int argc, char** argv)
{
    return sim::main_(argc, argv, [](std::string const& p) -> sim::Harness* { return new H{p}; });
}
