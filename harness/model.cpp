// Simulated users of the LUE data model (C++ API) on the simulated disk: D01-D15.
#include "model_state.hpp"
#include "h5ledger.hpp"
#include "lue/data_model.hpp"
#include "lue/navigate.hpp"
#include "lue/validate.hpp"
#include "lue/info/space.hpp"
#include "lue/info/time.hpp"
#include "lue/info/property/property_group.hpp"
#include <algorithm>
#include <cstdlib>
#include <iostream>
#include <variant>

namespace ldm = lue::data_model;
namespace h5 = lue::hdf5;
using sim::Op;
using sim::Rng;
using sim::Run;
using sim::Trace;
using sim::violate;
using m::u64;
using m::u8;

namespace {

    std::string const path = "/simfs/d.lue";

    h5::Datatype const& rdt(int dt)
    {
        static h5::Datatype const* t[m::nr_dt] = {&h5::native_uint8, &h5::native_uint16, &h5::native_uint32,
            &h5::native_uint64, &h5::native_int8, &h5::native_int16, &h5::native_int32, &h5::native_int64,
            &h5::native_float32, &h5::native_float64};
        return *t[dt];
    }
    h5::Shape rshape(m::Shape const& s) { return h5::Shape(s.begin(), s.end()); }
    std::string sstr(m::Shape const& s)
    {
        std::string r = "(";
        for (auto x : s) r += std::to_string(x) + ",";
        return r + ")";
    }
    std::string pick_name(u64 a)
    {
        static char const* names[] = {"a", "b", "elevation", "Ünïcödé name", "with space", "x.y", "1", "2", "same_shape",
            "lue_properties", "Q", "properties", "A", "zz", "time", "lue_time_domain", "constant_shape", "a b/c" /* replaced */,
            "a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name-a-very-long-name",
            "value"};
        std::string n = names[a % 20];
        for (auto& c : n)
            if (c == '/') c = '_';
        if ((a >> 8) % 3 == 0) n += std::to_string((a >> 16) % 7);
        return n;
    }
    std::string pick_desc(u64 a)
    {
        switch (a % 7)
        {
            case 0: return "";
            case 1: return "d";
            case 2: return "a longer description of the thing, with punctuation; ümlaut";
            case 3: return std::string(200 + a % 3000, 'x') + "end";
            case 4: return "line one\nline two\ttab";
            default: return "desc " + std::to_string(a % 1000);
        }
    }

    // ------------------------------------------------------------------ access to real arrays
    struct Acc
    {
        virtual ~Acc() = default;
        virtual u64 count() = 0;
        virtual m::Shape shape() = 0;
        virtual void expand(u64 n) = 0;
        virtual void read(u64 i, void* b) = 0;
        virtual void read(u64 b, u64 e, void* buf) = 0;
        virtual void read_all(void* b) = 0;
        virtual void write(u64 i, void const* b) = 0;
        virtual void write(u64 b, u64 e, void const* buf) = 0;
        virtual void write_all(void const* b) = 0;
        virtual ldm::Array& array() = 0;
    };
    m::Shape mshape(h5::Shape const& s) { return m::Shape(s.begin(), s.end()); }

    template<typename V>   // V: Value or Value&
    struct AccV: Acc
    {
        V v;
        template<typename U>
        explicit AccV(U&& u): v(std::forward<U>(u)) {}
        u64 count() override { return v.nr_arrays(); }
        m::Shape shape() override { return mshape(v.array_shape()); }
        void expand(u64 n) override { v.expand(n); }
        void read(u64 i, void* b) override { v.read(ldm::Index{i}, b); }
        void read(u64 b, u64 e, void* buf) override { v.read(ldm::IndexRange{b, e}, buf); }
        void read_all(void* b) override { static_cast<ldm::Array const&>(v).read(b); }
        void write(u64 i, void const* b) override { v.write(ldm::Index{i}, b); }
        void write(u64 b, u64 e, void const* buf) override { v.write(ldm::IndexRange{b, e}, buf); }
        void write_all(void const* b) override { static_cast<ldm::Array&>(v).write(b); }
        ldm::Array& array() override { return v; }
    };
    struct AccRaw: Acc
    {
        ldm::Array a;
        explicit AccRaw(ldm::Array&& x): a{std::move(x)} {}
        u64 count() override { return 1; }
        m::Shape shape() override { return mshape(a.shape()); }
        void expand(u64) override { throw std::logic_error("fixed"); }
        h5::Hyperslab whole(u64 b, u64 e)
        {
            // rows b..e of the first dimension
            auto s = a.shape();
            h5::Offset o(s.size(), 0);
            h5::Count c(s.begin(), s.end());
            (void)b;
            (void)e;
            return h5::Hyperslab{o, c};
        }
        void read(u64, void* b) override { a.read(b); }
        void read(u64 b, u64 e, void* buf) override { a.read(whole(b, e), buf); }
        void read_all(void* b) override { a.read(b); }
        void write(u64, void const* b) override { a.write(b); }
        void write(u64 b, u64 e, void const* buf) override { a.write(whole(b, e), buf); }
        void write_all(void const* b) override { a.write(b); }
        ldm::Array& array() override { return a; }
    };

    enum Which { w_ids, w_tset, w_tidx, w_tid, w_tval, w_tcnt, w_space, w_p0, w_p1, w_p2, w_p3, w_p4, w_p5 };
    struct ARef
    {
        Which w = w_ids;
        m::Phen* ph = nullptr;
        m::Pset* ps = nullptr;
        m::Prop* pr = nullptr;
        u64 loc = 0, id = 0;
    };

    struct Model: sim::Harness
    {
        std::string profile;
        explicit Model(std::string p): profile{std::move(p)} {}

        // ------------------------------------------------------------------ state
        m::Data data;
        std::unique_ptr<ldm::Dataset> ds;
        int mode = 0;              // 0 closed 1 rw 2 ro (user's dataset handle)
        int under = 0;             // 0 none 1 rw 2 ro (what the storage layer has open)
        bool damage = false;       // storage failed while the file was open for writing
        bool poison = false;       // storage failed in this session
        bool fault_since_flush = false;
        bool any_threw = false;
        bool mods = false;         // modified since last flush/close
        bool crashed_rw = false;
        bool crash_in_boundary = false;
        u64 next_id = 1;
        u64 stamp = 0, clock_stamp = 0;
        Run* run = nullptr;
        std::uint32_t op_f0 = 0;
        std::vector<std::unique_ptr<Acc>> held;   // handles of arrays and property sets that outlive the dataset's
        std::vector<std::unique_ptr<ldm::PropertySet>> held_sets;
        std::vector<ARef> held_refs, held_set_refs;
        std::uint64_t ro_hash = 0;
        std::uint64_t ro_writes = 0;
        bool loose = false;   // inside a tolerant verification

        std::vector<std::string> profiles() const override
        {
            return {"D01", "D02", "D03", "D04", "D05", "D06", "D07", "D08", "D09", "D10", "D11", "D12", "D13", "D14", "D15"};
        }
        std::vector<std::string> components_real() const override
        {
            return {"lue hdf5 wrapper", "lue data model (C++)", "HDF5 1.10.10"};
        }
        std::vector<std::string> components_stub() const override
        {
            return {"POSIX file system (simulated disk)", "clock", "allocator failures"};
        }

        bool is(char const* p) const { return profile == p; }
        // A failure to close an object is not reported to the user of LUE: destructors swallow it. What was recorded
        // but not flushed before it may be lost although everything that follows succeeds (known finding).
        static constexpr u64 close_failure = 1ull << 30;
        // A failing read while a file is open for writing leaves the metadata accumulator of the HDF5 library pointing
        // at bytes it did not read. What this process reads or writes from then on is not up to LUE.
        static constexpr u64 read_failure = 1ull << 29;
        bool unreliable = false;     // in this session
        // After a failing read of object metadata the HDF5 library may keep an incompletely loaded object header in its
        // cache and report what it did not load as absent. Once LUE has reported such a failure, nothing more can be
        // asked of it until the dataset is reopened.
        bool broken = false;         // in this session
        std::uint32_t session_read_faults = 0, session_faults = 0;
        void fresh_session()
        {
            broken = false;
            session_read_faults = sim::faults_fired_reading();
            session_faults = sim::faults_fired();
        }
        bool distrust() const
        {
            return (under == 1 && (unreliable || sim::faults_fired_reading() != last_read_faults)) || broken;
        }
        long op_c0 = 0;
        bool close_failed = false;   // in this session
        u64 since(std::uint32_t f0, long c0)
        {
            auto r = sim::faults_fired_reading();
            bool read = r != last_read_faults;
            last_read_faults = r;
            return (u64)(sim::faults_fired() - f0) | (h5ledger::failed_closes() != c0 ? close_failure : 0) | (read ? read_failure : 0);
        }
        std::uint32_t last_read_faults = 0;
        void note_close_failure(u64 nf)
        {
            if (under != 1) return;
            if ((nf & read_failure) && !unreliable)
            {
                unreliable = true;
                if (run->real) sim::probe("library unreliable after failing read");
            }
            if (!(nf & close_failure)) return;
            if (run->real) sim::probe("failing close swallowed");
            if (run->trace.c("strict_close")) return;   // only to demonstrate the known finding
            data.taint();
            close_failed = true;
        }
        bool allow_throw() const
        {
            return damage || poison || sim::faults_fired() > op_f0;
        }

        h5::File::AccessPropertyList fapl(bool clear = false)
        {
            h5::File::AccessPropertyList pl{};
            auto const& t = run->trace;
            hid_t id = pl.id();
            static std::size_t const nb[] = {1 << 20, 0, 64, 512, 4096};
            if (t.c("cache")) H5Pset_cache(id, 0, 7, nb[t.c("cache") % 5], 0.75);
            static std::size_t const sv[] = {65536, 4096, 16, 512};
            if (t.c("sieve")) H5Pset_sieve_buf_size(id, sv[t.c("sieve") % 4]);
            if (t.c("meta")) H5Pset_meta_block_size(id, t.c("meta") == 1 ? 0 : 128);
            if (t.c("mdc"))
            {
                H5AC_cache_config_t c;
                c.version = H5AC__CURR_CACHE_CONFIG_VERSION;
                if (H5Pget_mdc_config(id, &c) >= 0)
                {
                    c.set_initial_size = 1;
                    c.initial_size = 1024;
                    c.min_size = 1024;
                    c.max_size = 2048;
                    c.min_clean_fraction = 0.1;
                    H5Pset_mdc_config(id, &c);
                }
            }
            if (t.c("evict")) H5Pset_evict_on_close(id, 1);
            if (clear)
            {
                hbool_t v = 1;
                H5Pinsert2(id, "clear_status_flags", sizeof(hbool_t), &v, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr);
            }
            return pl;
        }

        // ------------------------------------------------------------------ lookups
        ldm::Phenomenon& rphen(ldm::Dataset& d, m::Phen const& p)
        {
            return p.universe.empty() ? d.phenomena()[p.name] : d.universes()[p.universe].phenomena()[p.name];
        }
        ldm::PropertySet& rpset(ldm::Dataset& d, m::Pset const& s)
        {
            auto& p = rphen(d, *s.owner);
            auto& r = (s.collection ? p.collection_property_sets() : p.property_sets())[s.name];
            if (s.time && !r.has_time_domain()) violate("presence", "property set '" + s.name + "' lost its time domain");
            if (s.space && !r.has_space_domain()) violate("presence", "property set '" + s.name + "' lost its space domain");
            return r;
        }
        template<typename F>
        void with_prop(ldm::Properties& ps, m::Prop const& p, F f)
        {
            switch (p.kind)
            {
                case 0: f(ps.collection<ldm::same_shape::Properties>()[p.name]); break;
                case 1: f(ps.collection<ldm::same_shape::constant_shape::Properties>()[p.name]); break;
                case 2: f(ps.collection<ldm::same_shape::variable_shape::Properties>()[p.name]); break;
                case 3: f(ps.collection<ldm::different_shape::Properties>()[p.name]); break;
                case 4: f(ps.collection<ldm::different_shape::constant_shape::Properties>()[p.name]); break;
                case 5: f(ps.collection<ldm::different_shape::variable_shape::Properties>()[p.name]); break;
            }
        }
        m::Arr* marr(ARef const& r)
        {
            switch (r.w)
            {
                case w_ids: return &r.ph->ids;
                case w_tset: return &r.ps->tracker->set;
                case w_tidx: return &r.ps->tracker->idx;
                case w_tid: return &r.ps->tracker->id;
                case w_tval: return &r.ps->time->value;
                case w_tcnt: return &r.ps->time->count;
                case w_space: return &r.ps->space->value;
                case w_p0:
                case w_p1: return &r.pr->arr;
                case w_p2:
                case w_p3:
                case w_p4: return &r.pr->parts.at(r.loc);
                case w_p5: return &r.pr->locobj.at(r.loc).at(r.id);
            }
            return nullptr;
        }
        std::string rname(ARef const& r)
        {
            static char const* n[] = {"object ids", "active set index", "active object index", "active object id", "time domain",
                "time cell counts", "space domain", "same_shape", "same_shape/constant_shape", "same_shape/variable_shape",
                "different_shape", "different_shape/constant_shape", "different_shape/variable_shape"};
            std::string s = std::string(n[r.w]) + " of ";
            if (r.pr) s += "property '" + r.pr->name + "' in ";
            if (r.ps) s += "property set '" + r.ps->name + "' of ";
            auto* ph = r.ph ? r.ph : r.ps->owner;
            s += "phenomenon '" + ph->name + "'";
            if (r.w >= w_p2) s += " part " + std::to_string(r.loc) + (r.w == w_p5 ? "/" + std::to_string(r.id) : "");
            return s;
        }
        std::unique_ptr<Acc> racc(ldm::Dataset& d, ARef const& r) 
        {
            if (r.w == w_ids) return std::make_unique<AccV<ldm::same_shape::Value&>>(rphen(d, *r.ph).object_id());
            return racc(rpset(d, *r.ps), r);
        }
        std::unique_ptr<Acc> racc(ldm::PropertySet& ps, ARef const& r)
        {
            using SV = ldm::same_shape::Value;
            using CV = ldm::same_shape::constant_shape::Value;
            switch (r.w)
            {
                case w_ids: break;
                case w_tset: return std::make_unique<AccV<CV&>>(ps.object_tracker().active_set_index());
                case w_tidx: return std::make_unique<AccV<CV&>>(ps.object_tracker().active_object_index());
                case w_tid: return std::make_unique<AccV<CV&>>(ps.object_tracker().active_object_id());
                case w_tval:
                    switch (r.ps->time->type)
                    {
                        case 0: return std::make_unique<AccV<CV>>(ps.time_domain().value<ldm::TimeBox>());
                        case 1: return std::make_unique<AccV<CV>>(ps.time_domain().value<ldm::TimeCell>());
                        default: return std::make_unique<AccV<CV>>(ps.time_domain().value<ldm::TimePoint>());
                    }
                case w_tcnt:
                {
                    auto cell = ps.time_domain().value<ldm::TimeCell>();
                    return std::make_unique<AccV<CV>>(CV{cell.count()});
                }
                case w_space:
                {
                    auto& sd = ps.space_domain();
                    auto const& s = *r.ps->space;
                    if (s.mobility == 0)
                    {
                        if (s.type == 0) return std::make_unique<AccV<CV>>(sd.value<ldm::MobileSpacePoint>());
                        return std::make_unique<AccV<CV>>(sd.value<ldm::MobileSpaceBox>());
                    }
                    if (s.type == 0) return std::make_unique<AccV<SV>>(sd.value<ldm::StationarySpacePoint>());
                    return std::make_unique<AccV<SV>>(sd.value<ldm::StationarySpaceBox>());
                }
                default: break;
            }
            auto& props = ps.properties();
            auto const& n = r.pr->name;
            switch (r.w)
            {
                case w_p0: return std::make_unique<AccV<SV&>>(props.collection<ldm::same_shape::Properties>()[n].value());
                case w_p1: return std::make_unique<AccV<CV&>>(props.collection<ldm::same_shape::constant_shape::Properties>()[n].value());
                case w_p2: return std::make_unique<AccV<SV>>(props.collection<ldm::same_shape::variable_shape::Properties>()[n].value()[r.loc]);
                case w_p3: return std::make_unique<AccRaw>(props.collection<ldm::different_shape::Properties>()[n].value()[r.loc]);
                case w_p4: return std::make_unique<AccV<CV>>(props.collection<ldm::different_shape::constant_shape::Properties>()[n].value()[r.loc]);
                case w_p5:
                {
                    auto v = props.collection<ldm::different_shape::variable_shape::Properties>()[n].value()[r.loc];
                    return std::make_unique<AccRaw>(v[r.id]);
                }
                default: break;
            }
            throw std::logic_error("racc");
        }
        // an independent copy of the handle
        std::unique_ptr<Acc> racc_copy(ldm::Dataset& d, ARef const& r)
        {
            using SV = ldm::same_shape::Value;
            using CV = ldm::same_shape::constant_shape::Value;
            auto a = racc(d, r);
            if (auto* p = dynamic_cast<AccV<SV&>*>(a.get())) return std::make_unique<AccV<SV>>(SV{p->v});
            if (auto* p = dynamic_cast<AccV<CV&>*>(a.get())) return std::make_unique<AccV<CV>>(CV{p->v});
            return a;
        }
        std::vector<ARef> arrays(int group)   // 0 ids 1 tracker 2 time 3 space 4 props 5 all
        {
            std::vector<ARef> r;
            if (group == 0 || group == 5)
                data.each_phen([&](m::Phen& p) { if (p.st) r.push_back({w_ids, &p, nullptr, nullptr, 0, 0}); });
            data.each_pset([&](m::Pset& s) {
                if (!s.st || !s.owner->st) return;
                if (group == 1 || group == 5)
                    for (auto w : {w_tset, w_tidx, w_tid}) r.push_back({w, s.owner, &s, nullptr, 0, 0});
                if ((group == 2 || group == 5) && s.time)
                {
                    r.push_back({w_tval, s.owner, &s, nullptr, 0, 0});
                    if (s.time->type == 1) r.push_back({w_tcnt, s.owner, &s, nullptr, 0, 0});
                }
                if ((group == 3 || group == 5) && s.space) r.push_back({w_space, s.owner, &s, nullptr, 0, 0});
                if (group == 4 || group == 5)
                    for (auto& [n, p] : s.props)
                    {
                        if (!p->st) continue;
                        if (p->kind <= 1) r.push_back({p->kind == 0 ? w_p0 : w_p1, s.owner, &s, p.get(), 0, 0});
                        else if (p->kind <= 4)
                        {
                            for (auto& [k, a] : p->parts)
                                if (p->partst[k]) r.push_back({(Which)(w_p0 + p->kind), s.owner, &s, p.get(), k, 0});
                        }
                        else
                            for (auto& [k, l] : p->locobj)
                                if (p->partst[k])
                                    for (auto& [i, a] : l)
                                        if (a.nst) r.push_back({w_p5, s.owner, &s, p.get(), k, i});
                    }
            });
            return r;
        }
        std::vector<m::Phen*> phens()
        {
            std::vector<m::Phen*> r;
            data.each_phen([&](m::Phen& p) { if (p.st) r.push_back(&p); });
            return r;
        }
        std::vector<m::Pset*> psets()
        {
            std::vector<m::Pset*> r;
            data.each_pset([&](m::Pset& p) { if (p.st && p.owner->st) r.push_back(&p); });
            return r;
        }
        std::vector<m::Prop*> props()
        {
            std::vector<m::Prop*> r;
            data.each_prop([&](m::Prop& p) { if (p.st && p.owner->st && p.owner->owner->st) r.push_back(&p); });
            return r;
        }
        template<typename T>
        static T pick(std::vector<T> const& v, u64 a) { return v[a % v.size()]; }

        // ------------------------------------------------------------------ running one operation
        enum Expect { must_ok, must_throw };
        // real: performs the call; applied: updates the model (true: succeeded, false: failed)
        void perform(std::function<void()> const& real, std::function<void(bool)> const& applied, bool modifies, Expect expect = must_ok)
        {
            bool ok = true;
            u64 nf = 0;
            if (run->real)
            {
                op_f0 = sim::faults_fired(); op_c0 = h5ledger::failed_closes();
                std::string what;
                try
                {
                    sim::InSut in;
                    real();
                }
                catch (sim::Violation const&)
                {
                    if (!distrust()) throw;
                    ok = false;
                }
                catch (std::exception const& e)
                {
                    if (sim::faults_fired_reading() != session_read_faults || (!modifies && sim::faults_fired() != session_faults)) broken = true;
                    ok = false;
                    what = e.what();
                }
                nf = since(op_f0, op_c0);
                if (!ok && expect == must_ok && nf == 0 && !poison && !damage)
                    violate("unexpected-error", "operation '" + run->trace.ops[run->op_idx].kind + "' failed without a storage failure: " + what);
                if (ok && expect == must_throw && !unreliable)
                    violate("accepted", "operation '" + run->trace.ops[run->op_idx].kind + "' must be rejected but was accepted");
                run->outcome(ok ? sim::oc_ok : sim::oc_threw, nf);
                if (!ok) sim::probe(nf ? "call failed with fault" : expect == must_throw ? "call rejected" : "call failed after fault");
            }
            else
            {
                ok = run->logged == sim::oc_ok;
                nf = run->logged_value;
                if (run->logged == sim::oc_crashed) nf = 1;
            }
            if (modifies) mods = true;
            if (nf)
            {
                poison = true;
                if (under == 1) fault_since_flush = true;
            }
            if (!ok && expect == must_ok && under == 1)
            {
                // the failed call may have lost what was not durable yet
                data.taint();
                any_threw = true;
                if (nf) damage = true;
            }
            if (!ok && expect == must_throw && nf && under == 1) { data.taint(); damage = true; }
            if (applied) applied(ok);
            note_close_failure(nf);
        }
        void skipped() { if (run->real) run->outcome(sim::oc_skipped); }

        // ------------------------------------------------------------------ verification
        template<typename F>
        void guard(char const* what, F f)
        {
            try { f(); }
            catch (sim::Violation const&)
            {
                if (!distrust()) throw;
                sim::probe("content not judged after failed read");
            }
            catch (std::exception const& e)
            {
                if (sim::faults_fired_reading() != session_read_faults || sim::faults_fired() != session_faults) broken = true;
                if (!allow_throw() && !loose)
                    violate("unexpected-error", std::string("reading ") + what + " failed without a storage failure: " + e.what());
                sim::probe("read failed after fault");
            }
        }
        template<typename Map>
        void check_names(std::string const& what, std::vector<std::string> real, std::size_t size, Map const& mm, std::set<std::string> const& ghosts)
        {
            std::set<std::string> rs(real.begin(), real.end());
            if (real.size() != size || rs.size() != real.size())
                violate("names", what + ": number of names and size differ");
            for (auto& [n, x] : mm)
                if (x->st != m::unknown && !rs.count(n))
                    violate("missing", what + ": '" + n + "' was added but is not listed");
            for (auto& n : rs)
            {
                auto it = mm.find(n);
                if (it == mm.end() && !ghosts.count(n))
                    violate("extra", what + ": '" + n + "' is listed but was never added");
            }
        }
        template<typename Coll>
        void check_missing(std::string const& what, Coll& c)
        {
            if (c.contains("no such thing")) violate("names", what + ": contains() is true for something never added");
            bool threw = false;
            try { (void)c["no such thing"]; }
            catch (std::exception const&) { threw = true; }
            if (!threw) violate("names", what + ": looking up something never added is not reported");
        }
        void compare(ARef const& r, m::Arr const& a, u64 b, u64 e, u8 const* got, char const* how)
        {
            std::size_t is = a.isize();
            for (u64 i = b; i < e; ++i)
            {
                if (a.st[i] == m::unknown) continue;
                if (is && std::memcmp(got + (i - b) * is, &a.data[i * is], is) != 0)
                {
                    std::size_t k = 0;
                    while (got[(i - b) * is + k] == a.data[i * is + k]) ++k;
                    violate("wrong-value", rname(r) + ": item " + std::to_string(i) + " of " + std::to_string(a.n) + " read " + how +
                            " differs from what was recorded (byte " + std::to_string(k) + " of " + std::to_string(is) +
                            (a.st[i] == m::durable ? ", flushed)" : ")"));
                }
            }
        }
        void verify_array(ARef const& r, Acc& acc, u64 how = 0)
        {
            auto const& a = *marr(r);
            if (a.nst == m::unknown)
            {
                return;
            }
            u64 n = acc.count();
            if (n != a.n) violate("wrong-count", rname(r) + ": " + std::to_string(n) + " arrays reported, " + std::to_string(a.n) + " expected");
            auto s = acc.shape();
            if (s != a.shape) violate("wrong-shape", rname(r) + ": array shape " + sstr(s) + " reported, " + sstr(a.shape) + " expected");
            auto const& t = acc.array().memory_datatype();
            if (t.size() != a.esize()) violate("wrong-type", rname(r) + ": element size " + std::to_string(t.size()) + ", expected " + std::to_string(a.esize()));
            if (a.isize() == 0 || a.n == 0) return;
            m::Bytes buf(a.n * a.isize() + 8, 0xA5);
            // reading something nobody ever wrote may fail: there is no storage for it
            try
            {
            if (how % 3 == 0) acc.read_all(buf.data());
            else if (how % 3 == 1)
                for (u64 i = 0; i < a.n; ++i) acc.read(i, buf.data() + i * a.isize());
            else
            {
                u64 k = 1 + (how / 3) % a.n;
                for (u64 i = 0; i < a.n; i += k) acc.read(i, std::min(a.n, i + k), buf.data() + i * a.isize());
            }
            }
            catch (std::exception const&) { if (!a.blank()) throw; return; }
            for (int i = 0; i < 8; ++i)
                if (buf[a.n * a.isize() + i] != 0xA5) violate("overrun", rname(r) + ": reading wrote beyond the requested items");
            compare(r, a, 0, a.n, buf.data(), how % 3 == 0 ? "as a whole" : how % 3 == 1 ? "one by one" : "by range");
        }

        static ldm::time::Unit unit(int u) { return (ldm::time::Unit)u; }
        ldm::Clock rclock(m::Clock const& c)
        {
            using E = ldm::time::Epoch;
            E::Kind k = c.epoch_kind == 0 ? E::Kind::common_era : E::Kind::formation_of_earth;
            E e = !c.origin ? E{k} : c.calendar ? E{k, *c.origin, ldm::time::Calendar::gregorian} : E{k, *c.origin};
            return ldm::Clock{e, unit(c.unit), c.nr_units};
        }
        void verify_clock(m::Clock const& c, ldm::Clock const& r)
        {
            using E = ldm::time::Epoch;
            if ((r.epoch().kind() == E::Kind::common_era) != (c.epoch_kind == 0)) violate("clock", "epoch kind differs");
            if (r.epoch().origin().has_value() != c.origin.has_value() || (c.origin && *r.epoch().origin() != *c.origin))
                violate("clock", "epoch origin differs");
            if (r.epoch().calendar().has_value() != (c.origin && c.calendar)) violate("clock", "calendar differs");
            if ((int)r.unit() != c.unit) violate("clock", "unit differs");
            if (r.nr_units() != c.nr_units) violate("clock", "number of units differs");
            ldm::Clock mine = rclock(c);
            if (!(r == mine) || r != mine) violate("clock-equality", "a clock read back does not compare equal to the one recorded");
            m::Clock other = c;
            switch (clock_stamp++ % 5)
            {
                case 0: other.unit = (c.unit + 1) % 10; break;
                case 1: other.nr_units += 1; break;
                case 2: other.epoch_kind = 1 - c.epoch_kind; break;
                case 3: other.origin = c.origin ? *c.origin + "x" : std::string("2000-01-01"); break;
                case 4: if (!c.origin) return; other.calendar = !c.calendar; break;
            }
            ldm::Clock o = rclock(other);
            if (r == o || !(r != o)) violate("clock-equality", "clocks that differ compare equal");
        }
        void verify_pset_head(m::Pset& s, ldm::PropertySet& r)
        {
            if (r.owns_object_tracker() != s.owns_tracker) violate("ownership", "property set '" + s.name + "': owns_object_tracker() is wrong");
            if (r.has_time_domain() != (bool)s.time) violate("presence", "property set '" + s.name + "': has_time_domain() is wrong");
            if (s.time)
            {
                if (r.owns_time_domain() != s.owns_time) violate("ownership", "property set '" + s.name + "': owns_time_domain() is wrong");
                auto t = (int)r.time_domain().configuration().value<ldm::TimeDomainItemType>();
                auto e = (int)(s.time->type == 0 ? ldm::TimeDomainItemType::box : s.time->type == 1 ? ldm::TimeDomainItemType::cell : ldm::TimeDomainItemType::point);
                if (t != e) violate("configuration", "property set '" + s.name + "': time domain item type differs");
                verify_clock(s.time->clock, r.time_domain().clock());
            }
            if (r.has_space_domain() != (bool)s.space) violate("presence", "property set '" + s.name + "': has_space_domain() is wrong");
            if (s.space)
            {
                auto& c = r.space_domain().configuration();
                auto mob = s.space->mobility == 0 ? ldm::Mobility::mobile : ldm::Mobility::stationary;
                auto typ = s.space->type == 0 ? ldm::SpaceDomainItemType::point : ldm::SpaceDomainItemType::box;
                if (c.value<ldm::Mobility>() != mob || c.value<ldm::SpaceDomainItemType>() != typ)
                    violate("configuration", "property set '" + s.name + "': space domain configuration differs");
                if (s.space->presence_st != m::unknown)
                {
                    if (r.space_domain().presence_is_discretized() != (bool)s.space->presence)
                        violate("presence-discretization", "property set '" + s.name + "': presence_is_discretized() is wrong");
                    if (s.space->presence && s.space->presence->st)
                    {
                        auto p = r.space_domain().discretized_presence_property();
                        check_same_property(p, *s.space->presence, "presence discretization property");
                    }
                }
            }
        }
        void check_same_property(ldm::PropertyGroup& g, m::Prop const& p, char const* what)
        {
            if (g.name() != p.name || g.description() != p.desc)
                violate("wrong-target", std::string(what) + " leads to '" + g.name() + "' instead of '" + p.name + "'");
            if (ds)
            {
                bool same = false;
                with_prop(rpset(*ds, *p.owner).properties(), p, [&](auto& q) { same = (q.id() == g.id()); });
                if (!same) violate("wrong-target", std::string(what) + " does not lead to the same property '" + p.name + "' in property set '" + p.owner->name + "'");
            }
        }
        void verify_prop_head(m::Pset& s, m::Prop& p, ldm::Properties& rp)
        {
            if (!rp.contains(p.name)) violate("missing", "property '" + p.name + "' is not contained");
            bool same = p.kind <= 2;
            if ((rp.shape_per_object(p.name) == ldm::ShapePerObject::same) != same) violate("kind", "property '" + p.name + "': shape_per_object differs");
            bool constant = p.kind == 0 || p.kind == 3;
            if ((rp.value_variability(p.name) == ldm::ValueVariability::constant) != constant) violate("kind", "property '" + p.name + "': value_variability differs");
            if (!constant)
            {
                bool cs = p.kind == 1 || p.kind == 4;
                if ((rp.shape_variability(p.name) == ldm::ShapeVariability::constant) != cs) violate("kind", "property '" + p.name + "': shape_variability differs");
            }
            with_prop(rp, p, [&](auto& q) {
                if (q.name() != p.name) violate("name", "property '" + p.name + "' reports name '" + q.name() + "'");
                if (q.description() != p.desc) violate("description", "property '" + p.name + "': description differs");
                auto const& mt = q.value().memory_datatype();
                if (!(mt == rdt(p.dt))) violate("wrong-type", "property '" + p.name + "': memory datatype is not " + m::dt_name(p.dt));
                if (p.tdisc_st != m::unknown)
                {
                    if (q.time_is_discretized() != (bool)p.tdisc) violate("discretization", "property '" + p.name + "': time_is_discretized() is wrong");
                    if (p.tdisc && p.tdisc->st)
                    {
                        if (q.time_discretization_type() != ldm::TimeDiscretization::regular_grid) violate("discretization", "time discretization type differs");
                        auto g = q.time_discretization_property();
                        check_same_property(g, *p.tdisc, "time discretization property");
                    }
                }
                if (p.sdisc_st != m::unknown)
                {
                    if (q.space_is_discretized() != (bool)p.sdisc) violate("discretization", "property '" + p.name + "': space_is_discretized() is wrong");
                    if (p.sdisc && p.sdisc->st)
                    {
                        if (q.space_discretization_type() != ldm::SpaceDiscretization::regular_grid) violate("discretization", "space discretization type differs");
                        auto g = q.space_discretization_property();
                        check_same_property(g, *p.sdisc, "space discretization property");
                    }
                }
            });
            (void)s;
            if (p.kind >= 2)
            {
                u64 c = 0;
                int rank = 0;
                switch (p.kind)
                {
                    case 2: { auto& v = rp.collection<ldm::same_shape::variable_shape::Properties>()[p.name].value(); c = v.nr_locations_in_time(); rank = v.rank(); break; }
                    case 3:
                    {
                        auto& v = rp.collection<ldm::different_shape::Properties>()[p.name].value();
                        c = v.nr_objects();
                        rank = v.rank();
                        for (auto& [k, st] : p.partst)
                            if (st != m::unknown && !v.contains(k)) violate("missing", "property '" + p.name + "': value of object " + std::to_string(k) + " is gone");
                        if (v.contains(0x7fffffffffull)) violate("extra", "property '" + p.name + "': contains() is true for an object never added");
                        break;
                    }
                    case 4:
                    {
                        auto& v = rp.collection<ldm::different_shape::constant_shape::Properties>()[p.name].value();
                        c = v.nr_objects();
                        rank = v.rank();
                        for (auto& [k, st] : p.partst)
                            if (st != m::unknown && !v.exists(k)) violate("missing", "property '" + p.name + "': value of object " + std::to_string(k) + " is gone");
                        if (v.exists(0x7fffffffffull)) violate("extra", "property '" + p.name + "': exists() is true for an object never added");
                        break;
                    }
                    case 5:
                    {
                        auto& v = rp.collection<ldm::different_shape::variable_shape::Properties>()[p.name].value();
                        c = v.nr_locations_in_time();
                        rank = v.rank();
                        for (auto& [k, l] : p.locobj)
                            if (p.partst[k] != m::unknown && p.loccountst[k] != m::unknown)
                            {
                                auto w = v[k];
                                if (w.nr_objects() != l.size()) violate("wrong-count", "property '" + p.name + "': number of objects at location " + std::to_string(k) + " differs");
                                for (auto& [i, a] : l)
                                    if (a.nst != m::unknown && !w.contains(i)) violate("missing", "property '" + p.name + "': object gone at a location in time");
                            }
                        break;
                    }
                }
                if (rank != p.rank) violate("rank", "property '" + p.name + "': rank differs");
                if (p.countst != m::unknown && c != p.nr_parts())
                    violate("wrong-count", "property '" + p.name + "': " + std::to_string(c) + " objects or locations in time reported, " + std::to_string(p.nr_parts()) + " expected");
            }
        }
        template<typename C>
        std::vector<std::string> kind_names(ldm::Properties& rp)
        {
            return rp.template names<C>();
        }
        void verify_pset(m::Pset& s, ldm::PropertySet& r, u64 how)
        {
            guard("property set", [&] { verify_pset_head(s, r); });
            guard("properties", [&] {
                auto& rp = r.properties();
                std::vector<std::string> all;
                for (auto& v : {kind_names<ldm::same_shape::Properties>(rp), kind_names<ldm::same_shape::constant_shape::Properties>(rp),
                         kind_names<ldm::same_shape::variable_shape::Properties>(rp), kind_names<ldm::different_shape::Properties>(rp),
                         kind_names<ldm::different_shape::constant_shape::Properties>(rp), kind_names<ldm::different_shape::variable_shape::Properties>(rp)})
                    all.insert(all.end(), v.begin(), v.end());
                check_names("properties of property set '" + s.name + "'", all, rp.size(), s.props, s.ghosts);
                if (rp.contains("no such thing")) violate("names", "properties contain something never added");
                if (rp.empty() != (rp.size() == 0)) violate("names", "empty() and size() differ");
                bool threw = false;
                try { (void)rp.shape_per_object("no such thing"); }
                catch (std::exception const&) { threw = true; }
                if (!threw) violate("names", "kind of a property never added is reported");
            });
            for (auto& [n, p] : s.props)
                if (p->st != m::unknown) guard("property", [&] { verify_prop_head(s, *p, r.properties()); });
            (void)how;
        }
        void verify_all(ldm::Dataset& d, u64 how = 0)
        {
            guard("dataset", [&] {
                if (d.description() != data.desc) violate("description", "description of the dataset differs");
                check_names("universes", d.universes().names(), d.universes().size(), data.universes, data.ughosts);
                check_names("phenomena", d.phenomena().names(), d.phenomena().size(), data.phens, data.ghosts);
                check_missing("phenomena", d.phenomena());
                check_missing("universes", d.universes());
            });
            for (auto& [n, u] : data.universes)
                if (u->st != m::unknown)
                    guard("universe", [&] {
                        auto& ru = d.universes()[u->name];
                        check_names("phenomena of universe '" + u->name + "'", ru.phenomena().names(), ru.phenomena().size(), u->phens, u->ghosts);
                        check_missing("phenomena of universe", ru.phenomena());
                    });
            data.each_phen([&](m::Phen& p) {
                if (p.st == m::unknown) return;
                if (!p.universe.empty() && data.universes[p.universe]->st == m::unknown) return;
                guard("phenomenon", [&] {
                    auto& rp = rphen(d, p);
                    if (rp.description() != p.desc) violate("description", "phenomenon '" + p.name + "': description differs");
                    check_names("property sets of '" + p.name + "'", rp.property_sets().names(), rp.property_sets().size(), p.psets, p.ghosts);
                    check_names("collection property sets of '" + p.name + "'", rp.collection_property_sets().names(), rp.collection_property_sets().size(), p.cpsets, p.cghosts);
                    check_missing("property sets", rp.property_sets());
                    if (p.ids.nst != m::unknown && rp.object_id().nr_objects() != p.ids.n) violate("wrong-count", "phenomenon '" + p.name + "': nr_objects differs");
                });
            });
            for (auto* s : psets())
            {
                if (!s->owner->universe.empty() && data.universes[s->owner->universe]->st == m::unknown) continue;
                guard("property set", [&] { verify_pset(*s, rpset(d, *s), how); });
            }
            u64 k = how;
            for (auto const& r : arrays(5))
            {
                if (!r.ph->universe.empty() && data.universes[r.ph->universe]->st == m::unknown) continue;
                guard("array", [&] {
                    auto acc = racc(d, r);
                    verify_array(r, *acc, k++);
                });
            }
        }

        // ------------------------------------------------------------------ file boundary
        // objects that belong to a file (not the library's own constant datatypes)
        static long nr_open()
        {
            return (long)H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_FILE | H5F_OBJ_DATASET | H5F_OBJ_GROUP | H5F_OBJ_ATTR);
        }
        // transient library objects: data spaces, datatypes, property lists
        static long nr_transient()
        {
            hsize_t a = 0, b = 0, c = 0;
            H5Inmembers(H5I_DATASPACE, &a);
            H5Inmembers(H5I_DATATYPE, &b);
            H5Inmembers(H5I_GENPROP_LST, &c);
            return (long)(a + b + c);
        }
        void check_ledger(char const* when)
        {
            // what LUE obtained from the library it must have given back, also when the library itself could not
            // release it because of a storage failure
            if (auto n = h5ledger::outstanding())
                violate("not-released", std::string(when) + ": " + std::to_string(n) + " HDF5 identifiers not given back after the last handle was dropped (" +
                        h5ledger::describe() + ")");
            if (auto n = h5ledger::over_released())
                violate("released-twice", std::string(when) + ": " + std::to_string(n) + " HDF5 identifiers released more often than obtained");
        }
        void check_released(char const* when)
        {
            check_ledger(when);
            if (poison || faulty_close) return;
            auto n = nr_open();
            int fds = sim::fs_open_descriptors(path);
            if (n != 0 || fds != 0)
                violate("not-released", std::string(when) + ": " + std::to_string((long)n) + " HDF5 objects and " + std::to_string(fds) +
                        " file descriptors still open after the last handle was dropped");
        }
        bool faulty_close = false;   // this process has seen the library fail to write
        std::uint64_t content_hash()
        {
            auto c = sim::fs_content(path);
            return sim::hash_bytes(c.data(), c.size());
        }
        // called when the last handle was dropped. nf: faults while doing so
        void settle_close(u64 nf)
        {
            if (nf) { poison = true; if (under == 1) fault_since_flush = true; }
            if (under == 1)
            {
                if (fault_since_flush)
                {
                    data.taint();
                    damage = true;
                }
                else data.settle();
                if (unreliable) { data.exists = false; damage = false; }   // given up: the user starts again
            }
            if (run->real)
            {
                if (nf || poison) faulty_close = true;
                check_released("closing");
                if (under == 2)
                {
                    if (content_hash() != ro_hash || sim::fs_write_calls() != ro_writes)
                        violate("modified-by-reading", "a dataset opened for reading changed on storage");
                    sim::probe("read-only session closed");
                }
            }
            under = 0;
            unreliable = close_failed = false;
            fresh_session();
            fault_since_flush = false;
            any_threw = false;
            poison = false;
            mods = false;
        }
        // The library could not close the file because of storage failures and still holds on to it. What it would
        // do to the file from now on is not up to LUE: a new process continues.
        void stuck()
        {
            if (!run->real || run->op_idx >= run->trace.ops.size() || mode || !held.empty() || !held_sets.empty()) return;
            if (nr_open() == 0 && sim::fs_open_descriptors(path) == 0) return;
            sim::probe("process replaced after failing to close");
            if (std::getenv("SIM_H5ERR"))
                std::fprintf(stderr, "## stuck: %ld objects, %d descriptors\n", nr_open(), sim::fs_open_descriptors(path));
            sim::restart_process();
        }
        // drop handles: user's dataset and/or held parts
        void drop(bool dataset, bool parts)
        {
            auto f0 = sim::faults_fired();
            auto c0 = h5ledger::failed_closes();
            if (run->real)
            {
                if (parts) { held.clear(); held_sets.clear(); }
                if (dataset) ds.reset();
            }
            if (parts) { held_refs.clear(); held_set_refs.clear(); nheld = 0; }
            if (dataset) mode = 0;
            u64 nf = since(f0, c0);
            if (!run->real) nf = run->logged_value;
            if (run->real) run->outcome(sim::oc_ok, nf);
            if (run->real ? (mode == 0 && held.empty() && held_sets.empty()) : (mode == 0 && nheld == 0))
            {
                if (!run->real && run->logged == sim::oc_crashed) return;   // died before it was complete
                if (under) settle_close(nf);
                stuck();
            }
            else if (nf) { poison = true; if (under == 1) fault_since_flush = true; note_close_failure(nf); }
        }
        std::size_t nheld = 0;   // number of held parts (also while rebuilding the model)

        void drop_all()
        {
            nheld = 0;
            drop(true, true);
        }

        void begin(Run& r) override
        {
            run = &r;
            h5ledger::without_accumulator(r.trace.c("noaccum"));
            h5ledger::start();
            faulty_close = false;
            if (std::getenv("SIM_H5ERR")) H5Eset_auto2(H5E_DEFAULT, (H5E_auto2_t)H5Eprint2, stderr);
            else H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
            data = m::Data{};
            if (r.real && r.incarnation == 0) sim::fs_remove(path);
        }

        void do_open(int want, bool clear)
        {
            if (under == 2) want = 2;
            bool was_under = under != 0;
            bool threw_ok = damage;
            if (under == 0) fresh_session();
            if (run->real && want == 2 && under == 0) { ro_hash = content_hash(); ro_writes = sim::fs_write_calls(); }
            perform(
                [&] {
                    auto pl = fapl(clear);
                    ds = std::make_unique<ldm::Dataset>(ldm::open_dataset(path, want == 1 ? H5F_ACC_RDWR : H5F_ACC_RDONLY, pl));
                },
                [&](bool ok) {
                    if (ok)
                    {
                        mode = want;
                        if (!was_under) under = want;
                        if (run->real && run->last_op_crashed) {}
                    }
                    else
                    {
                        if (run->real)
                        {
                            ds.reset();
                            if (!was_under) { if (poison) faulty_close = true; check_released("failed open"); }
                            if (!was_under && want == 2 && content_hash() != ro_hash) violate("modified-by-reading", "a failed attempt to open a dataset for reading changed it");
                        }
                        if (!was_under)
                        {
                            // opening for writing marks the file: it may be left marked
                            if (want == 1) damage = true;
                            poison = false;
                            fault_since_flush = false;
                            any_threw = false;
                        }
                    }
                },
                false);
            (void)threw_ok;
        }

        // ------------------------------------------------------------------ operations
        void op_new(Op const& op)
        {
            if (mode || under) { skipped(); return; }
            fresh_session();
            std::string desc = pick_desc(op.arg(0));
            // a new dataset replaces what was there
            auto before = data.exists;
            (void)before;
            data = m::Data{};
            held.clear();
            damage = false;
            poison = false;
            any_threw = false;
            fault_since_flush = false;
            under = 1;
            next_id = 1;
            perform([&] { ds = std::make_unique<ldm::Dataset>(ldm::create_dataset(path, desc, fapl())); },
                [&](bool ok) {
                    if (ok)
                    {
                        data.exists = true;
                        data.desc = desc;
                        mode = 1;
                        mods = true;
                    }
                    else
                    {
                        if (run->real)
                        {
                            ds.reset();
                            if (poison) faulty_close = true;
                            check_released("failed create");
                        }
                        under = 0;
                        data.exists = false;
                        poison = false;
                        fault_since_flush = false;
                    }
                },
                true);
        }
        void op_close(Op const&)
        {
            if (!mode) { skipped(); return; }
            drop(true, false);
        }
        void op_open(Op const& op)
        {
            if (mode || !data.exists) { skipped(); return; }
            do_open(op.arg(0) % 3 == 0 ? 2 : 1, false);
        }
        void op_reopen(Op const& op)
        {
            // closing is an operation of its own in the log: combine outcome by doing close first (no outcome), then open
            if (!data.exists) { skipped(); return; }
            if (mode)
            {
                u64 nf = 0;
                if (run->real)
                {
                    auto f0 = sim::faults_fired();
                    auto c0 = h5ledger::failed_closes();
                    ds.reset();
                    nf = since(f0, c0);
                }
                else nf = run->logged == sim::oc_crashed ? 1 : (run->logged_value >> 32);
                mode = 0;
                if (!run->real && run->logged == sim::oc_crashed && under == 1) return;   // may have died while closing
                if (nheld == 0) settle_close(nf);
                else if (nf) { poison = true; if (under == 1) fault_since_flush = true; note_close_failure(nf); }
                if (!data.exists)
                {
                    if (run->real)
                    {
                        run->outcome(sim::oc_threw, nf << 32);
                        stuck();
                    }
                    return;
                }
                if (run->real)
                {
                    run->outcome(sim::oc_threw, nf << 32);
                    stuck();
                    do_open(op.arg(0) % 3 == 0 ? 2 : 1, false);
                    // keep both counts
                    std::int32_t code = mode ? sim::oc_ok : sim::oc_threw;
                    run->outcome(code, (nf << 32) | since(op_f0, op_c0));
                    return;
                }
                auto lv = run->logged_value;
                const_cast<Run*>(run)->logged_value = lv & 0xffffffffull;
                do_open(op.arg(0) % 3 == 0 ? 2 : 1, false);
                return;
            }
            do_open(op.arg(0) % 3 == 0 ? 2 : 1, false);
        }
        void op_flush(Op const&)
        {
            if (mode != 1) { skipped(); return; }
            perform([&] { ds->flush(); },
                [&](bool ok) {
                    if (ok)
                    {
                        data.settle();
                        mods = false;
                        if (!any_threw && !close_failed) fault_since_flush = false;
                    }
                },
                false);
        }
        // only possible in a session opened for writing
        bool need_rw()
        {
            if (mode != 1) { skipped(); return false; }
            return true;
        }
        void op_uni(Op const& op)
        {
            if (!need_rw()) return;
            std::string n = pick_name(op.arg(0));
            if (data.universes.count(n) || data.ughosts.count(n)) { skipped(); return; }
            perform([&] { auto& u = ds->add_universe(n); if (!u.phenomena().empty()) violate("extra", "a new universe is not empty"); },
                [&](bool ok) {
                    if (!ok) { data.ughosts.insert(n); return; }
                    auto u = std::make_unique<m::Universe>();
                    u->name = n;
                    data.universes[n] = std::move(u);
                }, true);
        }
        void op_phen(Op const& op)
        {
            if (!need_rw()) return;
            std::string n = pick_name(op.arg(0)), desc = pick_desc(op.arg(1));
            m::Universe* u = nullptr;
            std::vector<m::Universe*> us;
            for (auto& [k, x] : data.universes)
                if (x->st) us.push_back(x.get());
            if (!us.empty() && op.arg(2) % 3 != 0) u = pick(us, op.arg(3));
            auto& map = u ? u->phens : data.phens;
            auto& gh = u ? u->ghosts : data.ghosts;
            if (map.count(n) || gh.count(n)) { skipped(); return; }
            perform([&] {
                    auto& p = u ? ds->universes()[u->name].add_phenomenon(n, desc) : ds->add_phenomenon(n, desc);
                    if (p.object_id().nr_objects() != 0) violate("extra", "a new phenomenon has objects");
                },
                [&](bool ok) {
                    if (!ok) { gh.insert(n); return; }
                    auto p = std::make_unique<m::Phen>();
                    p->name = n;
                    p->desc = desc;
                    p->universe = u ? u->name : "";
                    p->ids = m::Arr{3, {}};
                    map[n] = std::move(p);
                }, true);
        }
        m::Clock gen_clock(u64 a)
        {
            m::Clock c;
            c.epoch_kind = (a >> 3) % 2;
            if ((a >> 4) % 3)
            {
                c.origin = (a >> 6) % 2 ? "2026-01-01" : "1973-11-19T21:33:00+01:00";
                c.calendar = (a >> 7) % 2;
            }
            c.unit = (a >> 8) % 10;
            u64 k = a >> 12;
            c.nr_units = k % 5 == 0 ? ~0ull : 1 + k % 1000;
            return c;
        }
        void op_pset(Op const& op)
        {
            if (!need_rw()) return;
            auto ps = phens();
            if (ps.empty()) { skipped(); return; }
            auto* ph = pick(ps, op.arg(0));
            std::string n = pick_name(op.arg(1));
            bool coll = op.arg(2) % 4 == 0;
            int fl = (int)(op.arg(3) % 9);
            auto& map = coll ? ph->cpsets : ph->psets;
            auto& gh = coll ? ph->cghosts : ph->ghosts;
            if (map.count(n) || gh.count(n)) { skipped(); return; }
            std::vector<m::Pset*> withtime;
            for (auto* s : psets())
                if (s->time) withtime.push_back(s);
            auto allsets = psets();
            if ((fl == 3 || fl == 5 || fl == 7 || fl == 8) && withtime.empty()) fl = fl == 7 || fl == 8 ? 6 : 2;
            if (fl == 4 && allsets.empty()) fl = 2;
            m::Pset* tsrc = fl == 3 || fl == 5 || fl == 7 || fl == 8 ? pick(withtime, op.arg(4)) : nullptr;
            m::Pset* osrc = fl == 4 ? pick(allsets, op.arg(5)) : fl == 5 || fl == 8 ? (op.arg(5) % 2 ? tsrc : pick(allsets, op.arg(5) / 2)) : nullptr;
            auto s = std::make_unique<m::Pset>();
            s->name = n;
            s->flavour = fl;
            s->collection = coll;
            s->owner = ph;
            if (osrc) { s->tracker = osrc->tracker; s->owns_tracker = false; }
            else
            {
                s->tracker = std::make_shared<m::Tracker>();
                s->tracker->set = m::Arr{3, {}};
                s->tracker->idx = m::Arr{3, {}};
                s->tracker->id = m::Arr{3, {}};
            }
            if (tsrc) { s->time = tsrc->time; s->owns_time = false; }
            else if (fl == 2 || fl == 4 || fl == 6)
            {
                s->time = std::make_shared<m::Time>();
                s->time->type = (int)(op.arg(6) % 3);
                s->time->clock = gen_clock(op.arg(7));
                s->time->value = m::Arr{3, s->time->type == 2 ? m::Shape{1} : m::Shape{2}};
                s->time->count = m::Arr{3, {}};
            }
            if (fl == 1 || fl >= 6)
            {
                s->space = std::make_shared<m::Space>();
                auto a = op.arg(8);
                s->space->mobility = a % 2;
                s->space->type = (a / 2) % 2;
                s->space->rank = 1 + (int)((a / 4) % 3);
                s->space->dt = (int)((a / 16) % 4 == 0 ? (a / 64) % m::nr_dt : 8 + (a / 64) % 2);
                s->space->value = m::Arr{s->space->dt, {(u64)s->space->rank * (s->space->type == 1 ? 2 : 1)}};
            }
            auto* sp = s.get();
            perform([&] {
                    auto& rp = rphen(*ds, *ph);
                    auto& c = coll ? rp.collection_property_sets() : rp.property_sets();
                    ldm::SpaceConfiguration sc{sp->space && sp->space->mobility == 0 ? ldm::Mobility::mobile : ldm::Mobility::stationary,
                        sp->space && sp->space->type == 0 ? ldm::SpaceDomainItemType::point : ldm::SpaceDomainItemType::box};
                    auto tt = !sp->time ? ldm::TimeDomainItemType::box : sp->time->type == 0 ? ldm::TimeDomainItemType::box : sp->time->type == 1 ? ldm::TimeDomainItemType::cell : ldm::TimeDomainItemType::point;
                    ldm::TimeConfiguration tc{tt};
                    std::size_t rank = sp->space ? sp->space->rank : 1;
                    auto const& dt = rdt(sp->space ? sp->space->dt : 9);
                    switch (fl)
                    {
                        case 0: c.add(n); break;
                        case 1: c.add(n, sc, dt, rank); break;
                        case 2: c.add(n, tc, rclock(sp->time->clock)); break;
                        case 3: c.add(n, rpset(*ds, *tsrc).time_domain()); break;
                        case 4: c.add(n, tc, rclock(sp->time->clock), rpset(*ds, *osrc).object_tracker()); break;
                        case 5: c.add(n, rpset(*ds, *tsrc).time_domain(), rpset(*ds, *osrc).object_tracker()); break;
                        case 6: c.add(n, tc, rclock(sp->time->clock), sc, dt, rank); break;
                        case 7: c.add(n, rpset(*ds, *tsrc).time_domain(), sc, dt, rank); break;
                        case 8: c.add(n, rpset(*ds, *tsrc).time_domain(), rpset(*ds, *osrc).object_tracker(), sc, dt, rank); break;
                    }
                },
                [&](bool ok) {
                    if (!ok) { gh.insert(n); return; }
                    if (s->owns_tracker) s->tracker->owner = sp;
                    if (s->time && s->owns_time) s->time->owner = sp;
                    map[n] = std::move(s);
                }, true);
        }
        m::Shape gen_shape(u64 a, int rank, bool zero = false)
        {
            m::Shape s;
            for (int i = 0; i < rank; ++i)
            {
                u64 k = (a >> (i * 8)) & 255;
                s.push_back(zero && k % 17 == 0 ? 0 : 1 + k % (rank > 2 ? 4 : 6));
                if (k == 255 && rank <= 2) s.back() = 40;
            }
            return s;
        }
        void op_prop(Op const& op)
        {
            if (!need_rw()) return;
            auto ss = psets();
            if (ss.empty()) { skipped(); return; }
            auto* s = pick(ss, op.arg(0));
            std::string n = pick_name(op.arg(1)), desc = pick_desc(op.arg(2));
            if (s->props.count(n) || s->ghosts.count(n)) { skipped(); return; }
            auto p = std::make_unique<m::Prop>();
            p->name = n;
            p->desc = desc;
            p->kind = (int)(op.arg(3) % 6);
            p->dt = (int)(op.arg(4) % m::nr_dt);
            p->rank = 1 + (int)(op.arg(5) % 3);
            p->owner = s;
            bool shaped = p->kind <= 1 && op.arg(6) % 3 != 0;
            if (p->kind <= 1)
            {
                if (shaped) p->shape = gen_shape(op.arg(7), p->rank);
                else p->rank = 0;
                p->arr = m::Arr{p->dt, p->shape};
            }
            auto* pp = p.get();
            perform([&] {
                    auto& rp = rpset(*ds, *s).properties();
                    auto const& dt = rdt(pp->dt);
                    switch (pp->kind)
                    {
                        case 0:
                            if (shaped) { if (op.arg(8) % 2) rp.add(n, dt, rshape(pp->shape), desc); else rp.add<ldm::same_shape::Property>(n, dt, rshape(pp->shape), desc); }
                            else if (op.arg(8) % 2) rp.add(n, dt, desc);
                            else rp.add<ldm::same_shape::Property>(n, dt, desc);
                            break;
                        case 1:
                            if (shaped) rp.add<ldm::same_shape::constant_shape::Property>(n, dt, rshape(pp->shape), desc);
                            else rp.add<ldm::same_shape::constant_shape::Property>(n, dt, desc);
                            break;
                        case 2: rp.add<ldm::same_shape::variable_shape::Property>(n, dt, pp->rank, desc); break;
                        case 3: rp.add(n, dt, ldm::Rank{pp->rank}, desc); break;
                        case 4: rp.add<ldm::different_shape::constant_shape::Property>(n, dt, pp->rank, desc); break;
                        case 5: rp.add<ldm::different_shape::variable_shape::Property>(n, dt, pp->rank, desc); break;
                    }
                },
                [&](bool ok) {
                    if (!ok) { s->ghosts.insert(n); return; }
                    s->props[n] = std::move(p);
                }, true);
        }
        bool growable(ARef const& r) { return r.w != w_p3 && r.w != w_p5; }
        int group_of(u64 a)
        {
            if (is("D03")) return a % 4 == 0 ? 0 : a % 4 == 3 ? 4 : 1;
            if (is("D04")) return a % 5 == 0 ? 4 : 2;
            if (is("D05")) return a % 5 == 0 ? 4 : 3;
            if (is("D01") || is("D02")) return a % 6 == 0 ? 5 : 4;
            return (int)(a % 6);
        }
        std::optional<ARef> choose(Op const& op, bool grow)
        {
            auto v = arrays(group_of(op.arg(0)));
            if (v.empty()) v = arrays(5);
            std::vector<ARef> w;
            for (auto& r : v)
                if ((!grow || growable(r)) && marr(r)->nst != m::unknown) w.push_back(r);
            if (w.empty()) return std::nullopt;
            return pick(w, op.arg(1));
        }
        void op_grow(Op const& op)
        {
            if (!need_rw()) return;
            auto r = choose(op, true);
            if (!r) { skipped(); return; }
            auto& a = *marr(*r);
            u64 k = op.arg(2) % 9 == 0 ? 0 : op.arg(2) % 11 == 1 ? 50 + op.arg(3) % 300 : 1 + op.arg(3) % 7;
            if ((a.n + k) * a.isize() > 60000) k = 0;
            bool was = a.nst;
            (void)was;
            perform([&] { racc(*ds, *r)->expand(k); },
                [&](bool ok) {
                    if (ok) a.grow(k);
                    else a.lose();
                }, true);
        }
        void fill_items(m::Arr& a, u64 b, u64 e, m::Bytes& buf)
        {
            buf.resize((e - b) * a.isize());
            // sometimes a buffer without any variation
            u64 kind = sim::mix(++stamp, 77) % 12;
            for (std::size_t o = 0; o < buf.size(); o += a.esize())
            {
                if (kind == 0) std::memset(&buf[o], 0, a.esize());
                else if (kind == 1) m::gen_value(a.dt, stamp, &buf[o]);
                else m::gen_value(a.dt, ++stamp, &buf[o]);
            }
        }
        void do_write(ARef const& r, Acc* held_acc, u64 how, u64 x, u64 y)
        {
            auto& a = *marr(r);
            if (a.n == 0 || a.isize() == 0) { skipped(); return; }
            u64 b = x % a.n, e = b + 1;
            if (how % 3 == 1) e = b + 1 + y % (a.n - b);
            if (how % 3 == 2) { b = 0; e = a.n; }
            if (r.w == w_p3 || r.w == w_p5) { b = 0; e = 1; }
            m::Bytes buf;
            fill_items(a, b, e, buf);
            perform([&] {
                    std::unique_ptr<Acc> mine;
                    Acc* acc = held_acc;
                    if (!acc) { mine = racc(*ds, r); acc = mine.get(); }
                    if (how % 3 == 0) acc->write(b, buf.data());
                    else if (how % 3 == 1) acc->write(b, e, buf.data());
                    else acc->write_all(buf.data());
                },
                [&](bool ok) {
                    if (ok)
                    {
                        std::memcpy(&a.data[b * a.isize()], buf.data(), buf.size());
                        a.touch(b, e, m::recorded);
                    }
                    else
                    {
                        // neighbouring items may share a chunk with the ones written: all of the array is in doubt
                        a.lose();
                    }
                }, true);
        }
        void op_write(Op const& op)
        {
            if (!need_rw()) return;
            auto r = choose(op, false);
            if (!r) { skipped(); return; }
            do_write(*r, nullptr, op.arg(2), op.arg(3), op.arg(4));
        }
        void do_read(ARef const& r, Acc* held_acc, u64 how, u64 x, u64 y)
        {
            auto& a = *marr(r);
            if (a.nst == m::unknown) { skipped(); return; }
            perform([&] {
                    std::unique_ptr<Acc> mine;
                    Acc* acc = held_acc;
                    if (!acc) { mine = racc(*ds, r); acc = mine.get(); }
                    if (how % 4 == 3 || a.n == 0 || a.isize() == 0) { verify_array(r, *acc, how / 4); return; }
                    u64 b = x % a.n, e = b + 1;
                    if (how % 4 == 1) e = b + 1 + y % (a.n - b);
                    if (how % 4 == 2) { b = 0; e = a.n; }
                    m::Bytes buf((e - b) * a.isize() + 8, 0xA5);
                    try
                    {
                        if (how % 4 == 0) acc->read(b, buf.data());
                        else if (how % 4 == 1) acc->read(b, e, buf.data());
                        else acc->read_all(buf.data());
                    }
                    catch (std::exception const&) { if (!a.blank()) throw; return; }
                    for (int i = 0; i < 8; ++i)
                        if (buf[(e - b) * a.isize() + i] != 0xA5) violate("overrun", rname(r) + ": reading wrote beyond the requested items");
                    compare(r, a, b, e, buf.data(), "directly");
                },
                nullptr, false);
        }
        void op_read(Op const& op)
        {
            if (!mode) { skipped(); return; }
            auto r = choose(op, false);
            if (!r) { skipped(); return; }
            do_read(*r, nullptr, op.arg(2), op.arg(3), op.arg(4));
        }
        // growing and filling properties that hold one array per location in time or object
        void op_pexp(Op const& op)
        {
            if (!need_rw()) return;
            std::vector<m::Prop*> v;
            for (auto* p : props())
                if (p->kind >= 2 && p->countst != m::unknown) v.push_back(p);
            if (v.empty()) { skipped(); return; }
            auto* p = pick(v, op.arg(0));
            if (p->kind == 2)
            {
                u64 loc = op.arg(1) % 5 == 0 ? p->parts.size() + op.arg(1) % 7 : p->parts.size();
                if (p->parts.count(loc)) { skipped(); return; }
                u64 k = op.arg(2) % 6;
                auto shape = gen_shape(op.arg(3), p->rank);
                perform([&] {
                        auto& v2 = rpset(*ds, *p->owner).properties().collection<ldm::same_shape::variable_shape::Properties>()[p->name].value();
                        auto a = v2.expand(loc, k, rshape(shape));
                        if (a.nr_arrays() != k) violate("wrong-count", "expand returned an array of another size");
                    },
                    [&](bool ok) {
                        m::Arr a{p->dt, shape};
                        a.grow(k);
                        p->parts[loc] = a;
                        p->partst[loc] = ok ? m::recorded : m::unknown;
                        p->countst = ok ? m::recorded : m::unknown;
                        if (!ok) p->parts[loc].lose();
                    }, true);
                return;
            }
            int nobj = 1 + (int)(op.arg(2) % 4);
            int form = (int)(op.arg(4) % 3);
            if (p->kind == 3 && form == 0) nobj = 1;
            if (p->kind == 4 && form == 0) nobj = 1;
            std::vector<u64> ids;
            std::vector<m::Shape> shapes;
            std::vector<u64> counts;
            for (int i = 0; i < nobj; ++i)
            {
                // object ids at location: for kind 5 ids may recur at other locations
                u64 id = p->kind == 5 ? 1 + sim::mix(op.arg(5), i) % 9 : next_id++;
                if (p->kind == 5 && std::find(ids.begin(), ids.end(), id) != ids.end()) continue;
                if (op.arg(6) % 5 == 0 && p->kind != 5) id = id * 0x100000001ull;
                ids.push_back(id);
                shapes.push_back(gen_shape(sim::mix(op.arg(3), i), p->rank));
                counts.push_back(sim::mix(op.arg(7), i) % 5);
            }
            std::vector<h5::Shape> rs;
            for (auto& s : shapes) rs.push_back(rshape(s));
            if (p->kind == 3)
            {
                u64 nd = 0;
                m::Bytes fill;
                if (form == 0 && op.arg(8) % 2)
                {
                    fill.resize(m::dt_size(p->dt));
                    m::gen_value(p->dt, ++stamp, fill.data());
                    nd = 1;
                }
                perform([&] {
                        auto& v2 = rpset(*ds, *p->owner).properties().collection<ldm::different_shape::Properties>()[p->name].value();
                        if (form == 0) v2.expand(ids[0], rs[0], nd ? fill.data() : nullptr);
                        else if (form == 1) v2.expand(ids.size(), (ldm::ID const*)ids.data(), rs.data());
                        else
                        {
                            std::vector<h5::Shape::value_type> flat;
                            for (auto& s : rs) flat.insert(flat.end(), s.begin(), s.end());
                            v2.expand(ids.size(), (ldm::ID const*)ids.data(), flat.data());
                        }
                    },
                    [&](bool ok) {
                        for (std::size_t i = 0; i < ids.size(); ++i)
                        {
                            m::Arr a{p->dt, shapes[i]};
                            a.fill = fill;
                            a.fixed = true;
                            a.grow(1);
                            p->parts[ids[i]] = a;
                            p->partst[ids[i]] = ok ? m::recorded : m::unknown;
                            if (!ok) p->parts[ids[i]].lose();
                        }
                        p->countst = ok ? m::recorded : m::unknown;
                    }, true);
                return;
            }
            if (p->kind == 4)
            {
                perform([&] {
                        auto& v2 = rpset(*ds, *p->owner).properties().collection<ldm::different_shape::constant_shape::Properties>()[p->name].value();
                        if (form == 0)
                        {
                            auto a = v2.expand(ids[0], rs[0], counts[0]);
                            if (a.nr_arrays() != counts[0]) violate("wrong-count", "expand returned an array of another size");
                        }
                        else v2.expand(ids.size(), (ldm::ID const*)ids.data(), rs.data(), (ldm::Count const*)counts.data());
                    },
                    [&](bool ok) {
                        for (std::size_t i = 0; i < ids.size(); ++i)
                        {
                            m::Arr a{p->dt, shapes[i]};
                            a.grow(counts[i]);
                            p->parts[ids[i]] = a;
                            p->partst[ids[i]] = ok ? m::recorded : m::unknown;
                            if (!ok) p->parts[ids[i]].lose();
                        }
                        p->countst = ok ? m::recorded : m::unknown;
                    }, true);
                return;
            }
            u64 loc = p->locobj.size();
            perform([&] {
                    auto& v2 = rpset(*ds, *p->owner).properties().collection<ldm::different_shape::variable_shape::Properties>()[p->name].value();
                    auto a = v2.expand(loc, ids.size(), (ldm::ID const*)ids.data(), rs.data());
                    if (a.nr_objects() != ids.size()) violate("wrong-count", "expand returned a value with another number of objects");
                },
                [&](bool ok) {
                    auto& l = p->locobj[loc];
                    for (std::size_t i = 0; i < ids.size(); ++i)
                    {
                        m::Arr a{p->dt, shapes[i]};
                        a.fixed = true;
                        a.grow(1);
                        l[ids[i]] = a;
                        if (!ok) l[ids[i]].lose();
                    }
                    p->partst[loc] = ok ? m::recorded : m::unknown;
                    p->loccountst[loc] = ok ? m::recorded : m::unknown;
                    p->countst = ok ? m::recorded : m::unknown;
                }, true);
        }
        void op_disc(Op const& op)
        {
            if (!need_rw()) return;
            auto v = props();
            if (v.size() < 2) { skipped(); return; }
            auto* p = pick(v, op.arg(0));
            auto* q = pick(v, op.arg(1));
            bool time = op.arg(2) % 2;
            if (p == q || (time ? p->tdisc : p->sdisc) || (time ? p->tdisc_st : p->sdisc_st) == m::unknown) { skipped(); return; }
            perform([&] {
                    auto& rp = rpset(*ds, *p->owner).properties();
                    auto& rq = rpset(*ds, *q->owner).properties();
                    with_prop(rp, *p, [&](auto& a) {
                        with_prop(rq, *q, [&](auto& b) {
                            if (time) a.set_time_discretization(ldm::TimeDiscretization::regular_grid, b);
                            else a.set_space_discretization(ldm::SpaceDiscretization::regular_grid, b);
                        });
                    });
                },
                [&](bool ok) {
                    (time ? p->tdisc_st : p->sdisc_st) = ok ? m::recorded : m::unknown;
                    if (ok) (time ? p->tdisc : p->sdisc) = q;
                }, true);
        }
        void op_presence(Op const& op)
        {
            if (!need_rw()) return;
            std::vector<m::Pset*> v;
            for (auto* s : psets())
                if (s->space && !s->space->presence && s->space->presence_st != m::unknown) v.push_back(s);
            auto q = props();
            if (v.empty() || q.empty()) { skipped(); return; }
            auto* s = pick(v, op.arg(0));
            auto* p = pick(q, op.arg(1));
            perform([&] {
                    with_prop(rpset(*ds, *p->owner).properties(), *p, [&](auto& b) { rpset(*ds, *s).space_domain().set_presence_discretization(b); });
                },
                [&](bool ok) {
                    s->space->presence_st = ok ? m::recorded : m::unknown;
                    if (ok) s->space->presence = p;
                }, true);
        }
        // adding something under a name that is taken
        void op_dup(Op const& op)
        {
            if (!need_rw()) return;
            switch (op.arg(0) % 5)
            {
                case 0:
                {
                    std::vector<std::string> v;
                    for (auto& [n, u] : data.universes)
                        if (u->st) v.push_back(n);
                    if (v.empty()) break;
                    auto n = pick(v, op.arg(1));
                    perform([&] { if (op.arg(2) % 2) ds->universes().add(n); else ds->add_universe(n); }, nullptr, true, must_throw);
                    return;
                }
                case 1:
                {
                    auto v = phens();
                    if (v.empty()) break;
                    auto* p = pick(v, op.arg(1));
                    perform([&] {
                            auto d = pick_desc(op.arg(2));
                            bool direct = op.arg(3) % 2;
                            if (p->universe.empty()) { if (direct) ds->phenomena().add(p->name, d); else ds->add_phenomenon(p->name, d); }
                            else { auto& u = ds->universes()[p->universe]; if (direct) u.phenomena().add(p->name, d); else u.add_phenomenon(p->name, d); }
                        },
                        nullptr, true, must_throw);
                    return;
                }
                case 2:
                {
                    auto v = psets();
                    if (v.empty()) break;
                    auto* s = pick(v, op.arg(1));
                    perform([&] {
                            auto& rp = rphen(*ds, *s->owner);
                            auto& c = s->collection ? rp.collection_property_sets() : rp.property_sets();
                            ldm::TimeConfiguration tc{std::array{ldm::TimeDomainItemType::box, ldm::TimeDomainItemType::point, ldm::TimeDomainItemType::cell}[op.arg(4) % 3]};
                            ldm::SpaceConfiguration sc{op.arg(5) % 2 ? ldm::Mobility::mobile : ldm::Mobility::stationary, op.arg(6) % 2 ? ldm::SpaceDomainItemType::box : ldm::SpaceDomainItemType::point};
                            auto clock = rclock(gen_clock(op.arg(3)));
                            auto& o = rpset(*ds, *s);
                            bool timed = o.has_time_domain();
                            switch (op.arg(2) % 9)
                            {
                                case 0: c.add(s->name); break;
                                case 1: c.add(s->name, tc, clock); break;
                                case 2: c.add(s->name, sc, rdt(9), 2); break;
                                case 3: if (timed) c.add(s->name, o.time_domain()); else c.add(s->name); break;
                                case 4: c.add(s->name, tc, clock, o.object_tracker()); break;
                                case 5: if (timed) c.add(s->name, o.time_domain(), o.object_tracker()); else c.add(s->name, tc, clock, o.object_tracker()); break;
                                case 6: c.add(s->name, tc, clock, sc, rdt(9), 2); break;
                                case 7: if (timed) c.add(s->name, o.time_domain(), sc, rdt(9), 2); else c.add(s->name, sc, rdt(9), 1); break;
                                case 8: if (timed) c.add(s->name, o.time_domain(), o.object_tracker(), sc, rdt(9), 2); else c.add(s->name, tc, clock, sc, rdt(8), 1); break;
                            }
                        }, nullptr, true, must_throw);
                    return;
                }
                default:
                {
                    auto v = props();
                    if (v.empty()) break;
                    auto* p = pick(v, op.arg(1));
                    perform([&] {
                            auto& rp = rpset(*ds, *p->owner).properties();
                            auto const& dt = rdt((int)(op.arg(3) % m::nr_dt));
                            switch (op.arg(2) % 10)
                            {
                                case 8: rp.add(p->name, dt, h5::Shape{2, 3}); break;
                                case 9: rp.add<ldm::same_shape::Property>(p->name, dt); break;
                                case 0: rp.add(p->name, dt); break;
                                case 1: rp.add<ldm::same_shape::Property>(p->name, dt, h5::Shape{2, 3}); break;
                                case 2: rp.add<ldm::same_shape::constant_shape::Property>(p->name, dt); break;
                                case 3: rp.add<ldm::same_shape::constant_shape::Property>(p->name, dt, h5::Shape{2}); break;
                                case 4: rp.add<ldm::same_shape::variable_shape::Property>(p->name, dt, ldm::Rank{2}); break;
                                case 5: rp.add(p->name, dt, ldm::Rank{1}); break;
                                case 6: rp.add<ldm::different_shape::constant_shape::Property>(p->name, dt, ldm::Rank{2}); break;
                                case 7: rp.add<ldm::different_shape::variable_shape::Property>(p->name, dt, ldm::Rank{2}); break;
                            }
                        }, nullptr, true, must_throw);
                    return;
                }
            }
            skipped();
        }
        void op_hold(Op const& op)
        {
            if (!mode) { skipped(); return; }
            auto r = choose(op, false);
            if (!r || nheld > 6) { skipped(); return; }
            bool set = op.arg(2) % 3 == 0 && r->ps;
            perform([&] {
                    if (set) held_sets.push_back(std::make_unique<ldm::PropertySet>(rpset(*ds, *r->ps)));
                    else held.push_back(racc_copy(*ds, *r));
                },
                [&](bool ok) {
                    if (!ok) return;
                    (set ? held_set_refs : held_refs).push_back(*r);
                    ++nheld;
                }, false);
        }
        void op_hread(Op const& op)
        {
            if (nheld == 0) { skipped(); return; }
            std::size_t i = op.arg(0) % nheld;
            if (i < held_refs.size()) do_read(held_refs[i], run->real ? held[i].get() : nullptr, op.arg(2), op.arg(3), op.arg(4));
            else
            {
                i -= held_refs.size();
                auto r = held_set_refs[i];
                auto& a = *marr(r);
                // a copy of a property set taken earlier knows the properties and objects of that moment
                if (a.nst == m::unknown || r.w >= w_p2) { skipped(); return; }
                perform([&] { auto acc = racc(*held_sets[i], r); verify_array(r, *acc, op.arg(2)); }, nullptr, false);
            }
        }
        void op_hwrite(Op const& op)
        {
            if (under != 1 || held_refs.empty()) { skipped(); return; }
            std::size_t i = op.arg(0) % held_refs.size();
            auto r = held_refs[i];
            if (marr(r)->nst == m::unknown) { skipped(); return; }
            do_write(r, run->real ? held[i].get() : nullptr, op.arg(2), op.arg(3), op.arg(4));
        }
        void op_hdrop(Op const& op)
        {
            if (nheld == 0) { skipped(); return; }
            u64 nf = 0;
            std::size_t i = op.arg(0) % nheld;
            if (run->real)
            {
                auto f0 = sim::faults_fired();
                auto c0 = h5ledger::failed_closes();
                if (i < held_refs.size()) held.erase(held.begin() + i);
                else held_sets.erase(held_sets.begin() + (i - held_refs.size()));
                nf = since(f0, c0);
                run->outcome(sim::oc_ok, nf);
            }
            else nf = run->logged == sim::oc_crashed ? 1 : run->logged_value;
            if (i < held_refs.size()) held_refs.erase(held_refs.begin() + i);
            else held_set_refs.erase(held_set_refs.begin() + (i - held_refs.size()));
            --nheld;
            if (nf) { poison = true; if (under == 1) fault_since_flush = true; note_close_failure(nf); }
            if (!run->real && run->logged == sim::oc_crashed) return;
            if (nheld == 0 && mode == 0 && under) settle_close(nf);
        }
        void op_verify(Op const& op)
        {
            if (!mode) { skipped(); return; }
            perform([&] { verify_all(*ds, op.arg(0)); }, nullptr, false);
        }
        // a second, independent view of the same dataset in the same process
        void op_view(Op const& op)
        {
            if (!mode) { skipped(); return; }
            perform([&] {
                    auto d = ldm::open_dataset(path, H5F_ACC_RDONLY, fapl());
                    verify_all(d, op.arg(0));
                }, nullptr, false);
        }
        // modifications through a handle opened for reading
        void op_romod(Op const& op)
        {
            if (mode != 2 || under != 2) { skipped(); return; }
            auto aa = arrays(5);
            u64 k = op.arg(0) % 6;
            auto v = phens();
            auto ss = psets();
            std::vector<ARef> ga;
            for (auto& r : aa)
                if (growable(r)) ga.push_back(r);
            std::vector<ARef> wa;
            for (auto& r : aa)
                if (marr(r)->n && marr(r)->isize()) wa.push_back(r);
            if ((k == 2 && v.empty()) || (k == 3 && ss.empty()) || (k == 4 && ga.empty()) || (k == 5 && wa.empty())) k = 0;
            perform([&] {
                    switch (k)
                    {
                        case 0: ds->add_phenomenon("never before", "x"); break;
                        case 1: ds->add_universe("never before"); break;
                        case 2: rphen(*ds, *pick(v, op.arg(1))).property_sets().add("never before"); break;
                        case 3: rpset(*ds, *pick(ss, op.arg(1))).properties().add("never before", rdt(3)); break;
                        case 4: racc(*ds, pick(ga, op.arg(1)))->expand(1 + op.arg(2) % 3); break;
                        case 5:
                        {
                            auto r = pick(wa, op.arg(1));
                            auto& a = *marr(r);
                            m::Bytes b(a.n * a.isize(), 0x5c);
                            racc(*ds, r)->write_all(b.data());
                            break;
                        }
                    }
                }, nullptr, false, must_throw);
        }
        // a dataset in memory never touches storage
        void op_mem(Op const& op)
        {
            std::string name = op.arg(0) % 2 ? path : "/simfs/in_memory.lue";
            if (under && name == path) name = "/simfs/in_memory.lue";
            if (damage) { skipped(); return; }
            perform([&] {
                    auto before = sim::fs_write_calls();
                    auto list = sim::fs_list();
                    auto h = content_hash();
                    {
                        auto d = ldm::create_in_memory_dataset(name, "mem");
                        auto& p = d.add_phenomenon("p", "q");
                        u64 n = 1 + op.arg(1) % 50;
                        std::vector<u64> ids(n);
                        for (u64 i = 0; i < n; ++i) ids[i] = sim::mix(op.arg(2), i);
                        p.object_id().expand(n);
                        static_cast<ldm::Array&>(p.object_id()).write(ids.data());
                        auto& s = p.property_sets().add("s");
                        auto& q = s.properties().add("v", rdt(9), h5::Shape{3, 4});
                        q.value().expand(n);
                        std::vector<double> v(n * 12);
                        for (std::size_t i = 0; i < v.size(); ++i) v[i] = (double)sim::mix(op.arg(3), i);
                        static_cast<ldm::Array&>(q.value()).write(v.data());
                        if (op.arg(4) % 2) d.flush();
                        std::vector<u64> ids2(n);
                        static_cast<ldm::Array const&>(p.object_id()).read(ids2.data());
                        std::vector<double> v2(n * 12);
                        static_cast<ldm::Array const&>(q.value()).read(v2.data());
                        if (ids != ids2 || v != v2) violate("wrong-value", "values of an in-memory dataset differ from what was recorded");
                    }
                    if (sim::fs_write_calls() != before || sim::fs_list() != list || content_hash() != h)
                        violate("memory-on-storage", "an in-memory dataset touched storage");
                }, nullptr, false);
        }
        void op_validate(Op const&)
        {
            if (!mode) { skipped(); return; }
            perform([&] {
                    auto before = nr_open();
                    auto writes = sim::fs_write_calls();
                    try
                    {
                        h5::Issues issues;
                        ldm::validate(*ds, issues);
                    }
                    catch (std::exception const&)
                    {
                        // whether it rightly complains is decided elsewhere
                    }
                    if (nr_open() != before) violate("not-released", "validating left objects open");
                    if (under == 2 && sim::fs_write_calls() != writes) violate("modified-by-reading", "validating wrote to storage");
                }, nullptr, false);
        }
        void op_remove(Op const& op)
        {
            if (mode || under || !data.exists || op.arg(0) % 4) { skipped(); return; }
            perform([&] {
                    if (!ldm::dataset_exists(path)) violate("exists", "a dataset that was created is reported as not existing");
                    ldm::remove_dataset(path);
                    if (ldm::dataset_exists(path)) violate("exists", "a removed dataset is reported as existing");
                },
                [&](bool ok) { if (ok) data = m::Data{}; else data.exists = false; damage = false; }, false);   // when it fails the file may be gone or not
        }
        void op_cap(Op const& op)
        {
            if (run->real)
            {
                u64 used = sim::fs_content(path).size();
                sim::fs_set_capacity(op.arg(0) % 3 == 0 ? 0 : used + 1 + op.arg(1) % 20000);
                run->outcome(sim::oc_ok);
            }
        }

        void step(Run& r, Op const& op) override
        {
            run = &r;
            auto const& k = op.kind;
            if (k == "new") op_new(op);
            else if (k == "close") op_close(op);
            else if (k == "open") op_open(op);
            else if (k == "reopen") op_reopen(op);
            else if (k == "flush") op_flush(op);
            else if (k == "uni") op_uni(op);
            else if (k == "phen") op_phen(op);
            else if (k == "pset") op_pset(op);
            else if (k == "prop") op_prop(op);
            else if (k == "grow") op_grow(op);
            else if (k == "write") op_write(op);
            else if (k == "read") op_read(op);
            else if (k == "pexp") op_pexp(op);
            else if (k == "disc") op_disc(op);
            else if (k == "presence") op_presence(op);
            else if (k == "dup") op_dup(op);
            else if (k == "hold") op_hold(op);
            else if (k == "hread") op_hread(op);
            else if (k == "hwrite") op_hwrite(op);
            else if (k == "hdrop") op_hdrop(op);
            else if (k == "verify") op_verify(op);
            else if (k == "view") op_view(op);
            else if (k == "romod") op_romod(op);
            else if (k == "mem") op_mem(op);
            else if (k == "validate") op_validate(op);
            else if (k == "remove") op_remove(op);
            else if (k == "cap") op_cap(op);
            else skipped();
            stuck();
            // what a crash may have interrupted
            if (!r.real && r.logged == sim::oc_crashed)
                crash_in_boundary = k == "open" || k == "close" || k == "reopen" || k == "new" || k == "hdrop";
            sim::state(sim::mix(data.hash(), (u64)(mode * 4 + under) * 2 + damage));
        }

        // conclusions after a restart
        enum Conclusion : std::uint16_t { given_up = 0, untouched = 1, recovered = 2, reopened = 3, refused = 4 };
        void restarted(Run& r) override
        {
            run = &r;
            // the process died: nothing is open any more
            ds.reset();
            held.clear();
            held_sets.clear();
            held_set_refs.clear();
            held_refs.clear();
            nheld = 0;
            int was = under;
            bool boundary = r.death == 1 ? crash_in_boundary : r.death == 2 || under == 1;
            crash_in_boundary = false;
            mode = 0;
            under = 0;
            poison = false;
            any_threw = false;
            if (unreliable && r.real) data.exists = false;
            unreliable = close_failed = false;
            fresh_session();
            last_read_faults = sim::faults_fired_reading();
            bool had_faults = fault_since_flush || damage;
            fault_since_flush = false;
            Conclusion c = untouched;
            if (!r.real) c = (Conclusion)r.logged_value;
            else if (data.exists) c = inspect(was, boundary, had_faults);
            r.restart = c;
            switch (c)
            {
                case given_up:
                case refused:
                    data.exists = false;   // the user has to start again
                    damage = false;
                    break;
                case recovered: damage = false; break;
                case reopened:
                    data.taint();
                    if (had_faults) damage = true;
                    break;
                case untouched: break;
            }
            if (!data.exists) damage = false;
            mods = false;
        }
        Conclusion inspect(int was, bool boundary, bool had_faults)
        {
            sim::NoFaults nf;
            op_f0 = sim::faults_fired(); op_c0 = h5ledger::failed_closes();
            if (was == 1 && boundary && mods)
            {
                // the library died while completing a session with modifications: it does not order the writes it
                // does while closing, so nothing is known about what is there
                sim::probe("after crash while closing: given up");
                return given_up;
            }
            bool opened = false;
            try
            {
                auto d = ldm::open_dataset(path, H5F_ACC_RDONLY, fapl());
                loose = was == 1;
                verify_all(d, 0);
                opened = true;
            }
            catch (sim::Violation const&) { throw; }
            catch (std::exception const& e)
            {
                if (was != 1 && !had_faults && !boundary)
                    violate("lost-after-crash", std::string("a dataset that was not open for writing when the process died cannot be opened: ") + e.what());
            }
            loose = false;
            sim::probe(opened ? "after crash: opened" : "after crash: refused");
            if (was == 1 && !opened && !mods && !had_faults && !boundary)
            {
                sim::probe("after crash: recovering flushed content");
                {
                    std::unique_ptr<ldm::Dataset> d;
                    try { d = std::make_unique<ldm::Dataset>(ldm::open_dataset(path, H5F_ACC_RDWR, fapl(true))); }
                    catch (std::exception const& e)
                    {
                        violate("lost-after-crash", std::string("flushed and unmodified dataset cannot be recovered after the process died: ") + e.what());
                    }
                    verify_all(*d, 1);
                }
                auto d = ldm::open_dataset(path, H5F_ACC_RDONLY, fapl());
                verify_all(d, 2);
                return recovered;
            }
            if (was != 1 && !opened && boundary) return refused;   // died while opening it for writing
            if (was == 1) return opened ? reopened : refused;
            return untouched;
        }

        void finish(Run& r) override
        {
            run = &r;
            sim::fs_set_capacity(0);
            // drop everything; then, with storage working again, all must be there
            op_f0 = sim::faults_fired(); op_c0 = h5ledger::failed_closes();
            auto f0 = sim::faults_fired();
            auto c0 = h5ledger::failed_closes();
            held.clear();
            held_sets.clear();
            held_set_refs.clear();
            held_refs.clear();
            nheld = 0;
            ds.reset();
            mode = 0;
            u64 nf = since(f0, c0);
            if (nr_open() || sim::fs_open_descriptors(path))
            {
                check_ledger("closing");
                if (!(nf || poison || faulty_close)) check_released("closing");
                sim::restart_process();
            }
            if (under) settle_close(nf);
            sim::NoFaults nofaults;
            op_f0 = sim::faults_fired(); op_c0 = h5ledger::failed_closes();
            poison = false;
            if (!data.exists) return;
            try
            {
                ds = std::make_unique<ldm::Dataset>(ldm::open_dataset(path, H5F_ACC_RDONLY, fapl()));
            }
            catch (std::exception const& e)
            {
                if (!damage) violate("unexpected-error", std::string("final open failed without a storage failure: ") + e.what());
                sim::probe("final open refused");
                return;
            }
            sim::probe("final verification");
            verify_all(*ds, 5);
            ds.reset();
            check_released("final close");
        }

        // ------------------------------------------------------------------ generation
        void generate(Rng& g, Trace& t) override;
    };

    struct W { char const* k; int w; };

    void Model::generate(Rng& g, Trace& t)
    {
        t.cfg["cache"] = g.below(5);
        t.cfg["sieve"] = g.below(4);
        if (std::getenv("SIM_STRICT_CLOSE")) t.cfg["strict_close"] = 1;
        t.cfg["meta"] = g.below(3);
        t.cfg["mdc"] = g.below(3) == 0;
        t.cfg["evict"] = g.below(4) == 0;
        auto add = [&](char const* k) {
            Op o;
            o.kind = k;
            for (int i = 0; i < 9; ++i) o.a.push_back(g.next() >> 1);
            t.ops.push_back(o);
        };
        std::vector<W> w = {{"reopen", 6}, {"flush", 4}, {"uni", 2}, {"phen", 6}, {"pset", 12}, {"prop", 14}, {"grow", 14},
            {"write", 14}, {"read", 8}, {"pexp", 10}, {"disc", 3}, {"presence", 2}, {"dup", 2}, {"verify", 3}, {"view", 1}};
        auto set = [&](char const* k, int n) {
            for (auto& x : w)
                if (!std::strcmp(x.k, k)) { x.w = n; return; }
            w.push_back({k, n});
        };
        bool hard = false, crash = false, alloc = false;
        if (is("D01")) { set("write", 30); set("read", 16); set("prop", 18); }
        if (is("D02")) { set("grow", 28); set("pexp", 24); set("write", 10); }
        if (is("D03")) { set("pset", 16); set("grow", 24); set("write", 20); set("prop", 3); set("pexp", 1); }
        if (is("D04")) { set("pset", 22); set("grow", 20); set("write", 18); set("prop", 2); set("pexp", 1); }
        if (is("D05")) { set("pset", 22); set("grow", 16); set("write", 18); set("prop", 6); set("presence", 8); }
        if (is("D06")) { set("uni", 8); set("phen", 14); set("pset", 22); set("prop", 34); set("verify", 8); set("dup", 4); set("view", 3); }
        if (is("D07")) { set("pset", 24); set("disc", 14); set("presence", 6); set("view", 4); set("prop", 14); }
        if (is("D08")) { set("dup", 26); set("prop", 20); set("pset", 18); set("verify", 5); }
        if (is("D12")) { set("reopen", 14); set("romod", 24); set("mem", 6); set("validate", 6); set("view", 4); set("read", 10); }
        if (is("D13")) { set("hold", 14); set("hread", 12); set("hwrite", 6); set("hdrop", 8); set("close", 5); set("open", 8); set("validate", 3); set("reopen", 4); set("remove", 2); set("new", 2); }
        if (is("D09")) { set("flush", 14); set("reopen", 8); set("verify", 2); hard = true; }
        if (is("D10")) hard = true;
        if (is("D11")) { set("flush", 12); set("reopen", 8); set("close", 3); set("open", 6); crash = true; }
        if (is("D13")) { alloc = g.chance(0.5); hard = g.chance(0.4); }
        // every other profile: sometimes hard faults and crashes as well
        bool special = hard || crash || is("D10") || is("D13");
        if (!special)
        {
            auto k = g.below(10);
            if (k == 0) { hard = true; set("flush", 10); }
            else if (k == 1) { crash = true; set("flush", 10); set("open", 6); }
        }
        // swarm: switch some operations off
        for (auto& x : w)
            if (g.chance(0.12) && x.w < 12) x.w = 0;
        int n = (int)g.range(10, g.chance(0.25) ? 120 : 50);
        add("new");
        if (g.chance(0.5)) add("uni");
        for (int i = 0, e = 1 + (int)g.below(3); i < e; ++i) add("phen");
        for (int i = 0, e = 1 + (int)g.below(3); i < e; ++i) add("pset");
        for (int i = 0, e = 1 + (int)g.below(4); i < e; ++i) add("prop");
        int total = 0;
        for (auto& x : w) total += x.w;
        auto random_op = [&] {
            int k = (int)g.below(total);
            for (auto& x : w)
            {
                if (k < x.w) { add(x.k); return; }
                k -= x.w;
            }
        };
        for (int i = 0; i < n; ++i) random_op();
        std::size_t read_phase = 0;
        if (is("D10"))
        {
            // build, close, then only read under faults
            add("close");
            read_phase = t.ops.size();
            int m2 = (int)g.range(4, 20);
            std::vector<W> rw = {{"open", 4}, {"verify", 6}, {"read", 10}, {"view", 3}, {"close", 4}, {"validate", 1}, {"reopen", 5}};
            int tot = 0;
            for (auto& x : rw) tot += x.w;
            for (int i = 0; i < m2; ++i)
            {
                int k = (int)g.below(tot);
                for (auto& x : rw)
                {
                    if (k < x.w) { add(x.k); if (!std::strcmp(x.k, "open") || !std::strcmp(x.k, "reopen")) t.ops.back().a[0] = 3; break; }
                    k -= x.w;
                }
            }
        }
        auto op_at = [&](std::size_t lo) { return (std::uint32_t)(lo + g.below(t.ops.size() - lo)); };
        // benign storage behaviour: short and interrupted transfers
        int nb = g.chance(0.6) ? (int)g.below(5) : 0;
        for (int i = 0; i < nb; ++i)
        {
            sim::Fault f;
            f.op = op_at(0);
            f.nth = (std::uint32_t)g.below(6);
            f.cls = g.chance(0.5) ? sim::fc_read : sim::fc_write;
            f.kind = g.chance(0.5) ? sim::fk_short : sim::fk_eintr;
            f.arg = (std::uint32_t)g.below(5000);
            f.count = 1 + (std::uint32_t)g.below(4);
            t.faults.push_back(f);
        }
        if (hard)
        {
            int nh = 1 + (int)g.below(3);
            for (int i = 0; i < nh; ++i)
            {
                sim::Fault f;
                f.op = op_at(is("D10") ? read_phase : 1);
                f.nth = (std::uint32_t)(g.chance(0.5) ? g.below(4) : g.below(40));
                if (is("D10"))
                {
                    f.cls = g.chance(0.8) ? sim::fc_read : (sim::fc_read | sim::fc_open | sim::fc_stat);
                    f.kind = g.chance(0.85) ? sim::fk_eio : sim::fk_eacces;
                }
                else
                {
                    switch (g.below(6))
                    {
                        case 0: f.cls = sim::fc_read; f.kind = sim::fk_eio; break;
                        case 1: f.cls = sim::fc_write; f.kind = sim::fk_eio; break;
                        case 2: f.cls = sim::fc_write | sim::fc_trunc; f.kind = sim::fk_enospc; break;
                        case 3: f.cls = sim::fc_write; f.kind = sim::fk_torn; break;
                        case 4: f.cls = sim::fc_trunc | sim::fc_open | sim::fc_stat; f.kind = sim::fk_eio; break;
                        case 5: f.cls = sim::fc_write | sim::fc_read; f.kind = sim::fk_eio; break;
                    }
                }
                f.arg = (std::uint32_t)g.below(4000);
                f.count = g.chance(0.7) ? 1 : 1 + (std::uint32_t)g.below(20);
                t.faults.push_back(f);
            }
            if (!is("D10") && g.chance(0.25))
            {
                Op o;
                o.kind = "cap";
                o.a = {1 + g.below(2), g.next() >> 1};
                t.ops.insert(t.ops.begin() + op_at(1), o);
            }
        }
        // the library's metadata accumulator is only used where storage fails: it loses raw data once in a while
        bool fails = is("D13");
        for (auto const& f : t.faults) fails = fails || (f.kind != sim::fk_short && f.kind != sim::fk_eintr);
        for (auto const& o : t.ops) fails = fails || o.kind == "cap";
        t.cfg["noaccum"] = !fails;
        if (fails) t.cfg["evict"] = 0;
        if (crash)
        {
            int nc = 1 + (int)g.below(2);
            for (int i = 0; i < nc; ++i)
            {
                sim::Fault f;
                f.op = op_at(2);
                f.nth = (std::uint32_t)g.below(g.chance(0.5) ? 3 : 25);
                f.cls = g.chance(0.6) ? (sim::fc_write | sim::fc_trunc) : (sim::fc_write | sim::fc_read | sim::fc_open | sim::fc_close | sim::fc_trunc);
                f.kind = sim::fk_crash;
                f.arg = (std::uint32_t)g.below(4000);
                t.faults.push_back(f);
            }
        }
        if (alloc)
        {
            int na = 1 + (int)g.below(3);
            for (int i = 0; i < na; ++i)
            {
                sim::Fault f;
                f.op = op_at(1);
                f.nth = (std::uint32_t)g.below(g.chance(0.5) ? 20 : 400);
                f.cls = sim::fc_alloc;
                f.kind = sim::fk_badalloc;
                f.count = 1;
                t.faults.push_back(f);
            }
        }
    }

}  // Anonymous namespace

int main(int argc, char** argv)
{
    return sim::main_(argc, argv, [](std::string const& p) -> sim::Harness* { return new Model{p}; });
}
