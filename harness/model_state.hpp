// Reference model of a LUE dataset: plain containers mirroring what a user recorded.
#pragma once
#include "simkit.hpp"
#include <cmath>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace m {

    using u64 = std::uint64_t;
    using u8 = std::uint8_t;
    using Bytes = std::vector<u8>;
    using Shape = std::vector<u64>;

    // knowledge about a stored item: 0 unspecified (a failed call may have touched it), 1 recorded,
    // 2 recorded and made durable by a successful flush or close
    enum Know : u8 { unknown = 0, recorded = 1, durable = 2 };

    constexpr int nr_dt = 10;
    inline std::size_t dt_size(int dt)
    {
        static std::size_t const s[nr_dt] = {1, 2, 4, 8, 1, 2, 4, 8, 4, 8};
        return s[dt];
    }
    inline char const* dt_name(int dt)
    {
        static char const* n[nr_dt] = {"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64",
            "float32", "float64"};
        return n[dt];
    }
    inline void gen_value(int dt, u64 stamp, u8* out)
    {
        u64 const x = sim::mix(0x5bd1e995, stamp);
        if (dt == 8)
        {
            float f = (float)(std::int64_t)(x % 20000001) - 10000000.0f;
            switch (x >> 56)
            {
                case 1: f = NAN; break;
                case 2: f = INFINITY; break;
                case 3: f = -0.0f; break;
                case 4: f = 1e-42f; break;
                default: break;
            }
            std::memcpy(out, &f, 4);
        }
        else if (dt == 9)
        {
            double f = (double)(std::int64_t)(x >> 11) * 1.25;
            switch (x & 255)
            {
                case 1: f = NAN; break;
                case 2: f = -INFINITY; break;
                case 3: f = -0.0; break;
                case 4: f = 5e-324; break;
                default: break;
            }
            std::memcpy(out, &f, 8);
        }
        else
        {
            u64 y = x;
            std::memcpy(out, &y, dt_size(dt));
        }
    }

    inline u64 prod(Shape const& s)
    {
        u64 r = 1;
        for (auto x : s) r *= x;
        return r;
    }

    struct Arr
    {
        int dt = 0;
        Shape shape;     // of one item
        u64 n = 0;       // number of items
        Bytes data;
        std::vector<u8> st;   // Know per item
        u8 nst = recorded;    // knowledge about n
        Bytes fill;           // no-data value (one element), empty: zero
        bool fixed = false;   // cannot grow (raw array of one item)

        Arr() = default;
        Arr(int d, Shape s): dt{d}, shape{std::move(s)} {}
        std::size_t esize() const { return dt_size(dt); }
        std::size_t isize() const { return prod(shape) * esize(); }
        void grow(u64 k)
        {
            std::size_t is = isize();
            std::size_t old = data.size();
            data.resize(old + k * is, 0);
            if (!fill.empty())
                for (std::size_t o = old; o < data.size(); o += fill.size()) std::memcpy(&data[o], fill.data(), fill.size());
            n += k;
            st.resize(n, fill.empty() ? unknown : recorded);   // unspecified until written when there is no no-data value
            nst = recorded;
        }
        void touch(u64 b, u64 e, u8 know)
        {
            for (u64 i = b; i < e && i < n; ++i) st[i] = know;
        }
        void lose()   // unspecified altogether
        {
            nst = unknown;
            for (auto& s : st) s = unknown;
        }
        void taint()
        {
            if (nst == recorded) nst = unknown;
            for (auto& s : st)
                if (s == recorded) s = unknown;
        }
        void settle()
        {
            if (nst == recorded) nst = durable;
            for (auto& s : st)
                if (s == recorded) s = durable;
        }
        // whether nothing in it has specified content (reading may then fail: no storage)
        bool blank() const
        {
            for (auto x : st)
                if (x != unknown) return false;
            return true;
        }
        u64 hash() const { return sim::hash_bytes(data.data(), data.size(), n * 31 + nst); }
    };

    struct Pset;
    struct Phen;
    struct Prop;

    struct Clock
    {
        int epoch_kind = 0;          // 0 common_era 1 formation_of_earth
        std::optional<std::string> origin;
        bool calendar = false;
        int unit = 0;                // 0..9
        u64 nr_units = 1;
    };
    struct Time
    {
        int type = 0;   // 0 box 1 cell 2 point
        Clock clock;
        Arr value, count;
        Pset* owner = nullptr;
    };
    struct Tracker
    {
        Arr set, idx, id;
        Pset* owner = nullptr;
    };
    struct Space
    {
        int mobility = 0;  // 0 mobile 1 stationary
        int type = 0;      // 0 point 1 box
        int dt = 9;
        int rank = 2;
        Arr value;
        Prop* presence = nullptr;
        u8 presence_st = durable;
    };
    // 0 same 1 same/const 2 same/var 3 diff 4 diff/const 5 diff/var
    struct Prop
    {
        std::string name, desc;
        int kind = 0;
        int dt = 0;
        Shape shape;
        int rank = 0;
        u8 st = recorded;
        Pset* owner = nullptr;
        Arr arr;
        std::map<u64, Arr> parts;                     // kinds 2 (per location), 3 and 4 (per object)
        std::map<u64, std::map<u64, Arr>> locobj;     // kind 5
        std::map<u64, u8> partst;                     // existence of a part
        u8 countst = durable;                         // nr_objects / nr_locations_in_time
        std::map<u64, u8> loccountst;                 // kind 5: nr_objects per location
        Prop* tdisc = nullptr;
        Prop* sdisc = nullptr;
        u8 tdisc_st = durable, sdisc_st = durable;
        u64 nr_parts() const { return kind == 5 ? locobj.size() : parts.size(); }
    };
    struct Pset
    {
        std::string name;
        int flavour = 0;
        bool collection = false;
        u8 st = recorded;
        Phen* owner = nullptr;
        std::shared_ptr<Tracker> tracker;
        bool owns_tracker = true;
        std::shared_ptr<Time> time;
        bool owns_time = true;
        std::shared_ptr<Space> space;
        std::map<std::string, std::unique_ptr<Prop>> props;
        std::set<std::string> ghosts;
    };
    struct Phen
    {
        std::string universe;  // empty: directly in the dataset
        std::string name, desc;
        u8 st = recorded;
        Arr ids;
        std::map<std::string, std::unique_ptr<Pset>> psets, cpsets;
        std::set<std::string> ghosts, cghosts;
    };
    struct Universe
    {
        std::string name;
        u8 st = recorded;
        std::map<std::string, std::unique_ptr<Phen>> phens;
        std::set<std::string> ghosts;
    };
    struct Data
    {
        bool exists = false;
        u8 st = recorded;      // knowledge about the file as a whole
        std::string desc;
        std::map<std::string, std::unique_ptr<Universe>> universes;
        std::map<std::string, std::unique_ptr<Phen>> phens;
        std::set<std::string> ughosts, ghosts;

        template<typename F>
        void each_phen(F f)
        {
            for (auto& [n, p] : phens) f(*p);
            for (auto& [n, u] : universes)
                for (auto& [pn, p] : u->phens) f(*p);
        }
        template<typename F>
        void each_pset(F f)
        {
            each_phen([&](Phen& p) {
                for (auto& [n, s] : p.psets) f(*s);
                for (auto& [n, s] : p.cpsets) f(*s);
            });
        }
        template<typename F>
        void each_prop(F f)
        {
            each_pset([&](Pset& s) {
                for (auto& [n, p] : s.props) f(*p);
            });
        }
        template<typename F>
        void each_arr(F f)
        {
            each_phen([&](Phen& p) { f(p.ids); });
            each_pset([&](Pset& s) {
                if (s.owns_tracker) { f(s.tracker->set); f(s.tracker->idx); f(s.tracker->id); }
                if (s.time && s.owns_time) { f(s.time->value); f(s.time->count); }
                if (s.space) f(s.space->value);
            });
            each_prop([&](Prop& p) {
                f(p.arr);
                for (auto& [k, a] : p.parts) f(a);
                for (auto& [k, l] : p.locobj)
                    for (auto& [i, a] : l) f(a);
            });
        }
        template<typename F>
        void each_mark(F f)   // structural knowledge
        {
            for (auto& [n, u] : universes) f(u->st);
            each_phen([&](Phen& p) { f(p.st); });
            each_pset([&](Pset& s) {
                f(s.st);
                if (s.space) f(s.space->presence_st);
            });
            each_prop([&](Prop& p) {
                f(p.st);
                f(p.countst);
                f(p.tdisc_st);
                f(p.sdisc_st);
                for (auto& [k, s] : p.partst) f(s);
                for (auto& [k, s] : p.loccountst) f(s);
            });
        }
        // a call failed: whatever was not durable is unspecified from now on
        void taint()
        {
            each_arr([](Arr& a) { a.taint(); });
            each_mark([](u8& s) { if (s == recorded) s = unknown; });
        }
        void settle()
        {
            each_arr([](Arr& a) { a.settle(); });
            each_mark([](u8& s) { if (s == recorded) s = durable; });
        }
        void lose_all()
        {
            each_arr([](Arr& a) { a.lose(); });
            each_mark([](u8& s) { s = unknown; });
        }
        u64 hash()
        {
            u64 h = universes.size() * 31 + phens.size();
            each_phen([&](Phen& p) { h = sim::mix(h, p.psets.size() * 7 + p.cpsets.size() + p.st); });
            each_pset([&](Pset& s) { h = sim::mix(h, s.flavour * 64 + s.props.size() * 4 + s.st); });
            each_prop([&](Prop& p) { h = sim::mix(h, p.kind * 1000 + p.dt * 100 + p.nr_parts() * 4 + p.st); });
            each_arr([&](Arr& a) { h = sim::mix(h, a.n * 8 + a.nst); });
            return h;
        }
    };

}  // namespace m
