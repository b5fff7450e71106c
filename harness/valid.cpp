// D14, D15: validation of datasets. Datasets are filled step by step, consistently when nothing gets in between; sequences
// of steps are interrupted, and single inconsistencies are introduced. The simulator keeps what is stored and
// decides itself whether that is complete and consistent, inconsistent, or neither.
#include "simkit.hpp"
#include "h5ledger.hpp"
#include "lue/data_model.hpp"
#include "lue/validate.hpp"
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <numeric>
#include <set>

namespace ldm = lue::data_model;
namespace h5 = lue::hdf5;
using sim::Op;
using sim::Rng;
using sim::Run;
using sim::Trace;
using sim::violate;
using u64 = std::uint64_t;

namespace {
    std::string const path = "/simfs/v.lue";

    struct Tracker { std::vector<u64> set, idx, id; };
    struct Time { int type = 0; std::vector<u64> at; std::vector<u64> counts; };    // 0 box, 1 cell, 2 point
    struct Space { bool mobile = false, point = false; u64 rank = 1, n = 0; };
    struct Prop
    {
        std::string name;
        int kind = 0;                               // as in the harness of the model
        u64 n = 0;                                  // 0, 1
        std::map<u64, u64> per;                     // 2: location -> number, 3, 4: object -> number
        std::map<u64, std::vector<u64>> locs;       // 5: location -> objects
    };
    struct Pset
    {
        std::string name;
        bool coll = false;
        int flavour = 0;
        std::shared_ptr<Tracker> tracker;
        std::shared_ptr<Time> time;
        std::shared_ptr<Space> space;
        std::vector<Prop> props;
    };
    struct Phen
    {
        std::string name;
        std::vector<u64> ids;
        bool with_ids = true;
        std::vector<std::unique_ptr<Pset>> sets;
        std::map<Tracker*, Tracker> want;           // what trackers and time domains will hold once everything is written
        std::map<Time*, Time> want_time;
        std::vector<u64> want_ids;
    };

    struct Verdict { std::string wrong; bool complete = true; };

    template<typename T>
    bool increasing(std::vector<T> const& v) { return std::is_sorted(v.begin(), v.end()); }

    struct H: sim::Harness
    {
        std::string profile;
        Run* run = nullptr;
        std::unique_ptr<ldm::Dataset> ds;
        bool writable = false, broken = false;
        std::vector<std::unique_ptr<Phen>> phens;
        u64 next_name = 0;
        explicit H(std::string p): profile{std::move(p)} {}
        std::vector<std::string> profiles() const override { return {"D14", "D15"}; }

        // ------------------------------------------------------------------ the real things
        ldm::Phenomenon& real(Phen const& p) { return ds->phenomena()[p.name]; }
        ldm::PropertySet& real(Phen const& p, Pset const& s)
        {
            auto& r = real(p);
            return s.coll ? r.collection_property_sets()[s.name] : r.property_sets()[s.name];
        }
        template<typename A, typename T>
        void append(A&& array, std::vector<T>& have, std::vector<T> const& more)
        {
            if (more.empty()) return;
            std::size_t width = 1;
            for (auto x : array.array_shape()) width *= x;
            u64 b = have.size() / width, n = more.size() / width;
            array.expand(n);
            array.write(ldm::IndexRange{b, b + n}, more.data());
            have.insert(have.end(), more.begin(), more.end());
        }
        template<typename A, typename T>
        void overwrite(A&& array, std::vector<T>& have, std::size_t at, T value)
        {
            std::size_t width = 1;
            for (auto x : array.array_shape()) width *= x;
            auto copy = have;
            copy[at] = value;
            u64 row = at / width;
            array.write(ldm::Index{row}, copy.data() + row * width);
            have = std::move(copy);
        }
        template<typename F>
        void with_time(ldm::TimeDomain& d, Time const& t, F f)
        {
            if (t.type == 0) { auto v = d.value<ldm::TimeBox>(); f(v); }
            else if (t.type == 1) { auto v = d.value<ldm::TimeCell>(); f(v); }
            else { auto v = d.value<ldm::TimePoint>(); f(v); }
        }
        template<typename F>
        void with_space(ldm::SpaceDomain& d, Space const& s, F f)
        {
            if (s.mobile)
            {
                if (s.point) { auto v = d.value<ldm::MobileSpacePoint>(); f(v); }
                else { auto v = d.value<ldm::MobileSpaceBox>(); f(v); }
            }
            else if (s.point) { auto v = d.value<ldm::StationarySpacePoint>(); f(v); }
            else { auto v = d.value<ldm::StationarySpaceBox>(); f(v); }
        }
        template<typename P, typename F>
        void with_value(ldm::PropertySet& s, Prop const& p, F f) { f(s.properties().template collection<typename ldm::Properties>()); (void)p; }

        void grow_prop(Phen& ph, Pset& s, Prop& p, u64 key, u64 n)
        {
            auto& props = real(ph, s).properties();
            h5::Shape const shape{2, 3};
            switch (p.kind)
            {
                case 0: props.collection<ldm::same_shape::Properties>()[p.name].value().expand(n); p.n += n; break;
                case 1: props.collection<ldm::same_shape::constant_shape::Properties>()[p.name].value().expand(n); p.n += n; break;
                case 2: props.collection<ldm::same_shape::variable_shape::Properties>()[p.name].value().expand(key, n, shape); p.per[key] = n; break;
                case 3: props.collection<ldm::different_shape::Properties>()[p.name].value().expand(key, shape); p.per[key] = 1; break;
                case 4: props.collection<ldm::different_shape::constant_shape::Properties>()[p.name].value().expand(key, shape, n); p.per[key] = n; break;
            }
        }
        void grow_prop(Phen& ph, Pset& s, Prop& p, u64 loc, std::vector<u64> const& ids)
        {
            std::vector<h5::Shape> shapes(ids.size(), h5::Shape{1 + loc % 3, 2});
            real(ph, s).properties().collection<ldm::different_shape::variable_shape::Properties>()[p.name].value().expand(loc, ids.size(), (ldm::ID const*)ids.data(), shapes.data());
            p.locs[loc] = ids;
        }

        // ------------------------------------------------------------------ is what is stored consistent?
        static std::vector<std::vector<u64>> active(Tracker const& t)
        {
            std::vector<std::vector<u64>> r;
            for (std::size_t i = 0; i < t.set.size(); ++i)
            {
                u64 b = t.set[i], e = i + 1 < t.set.size() ? t.set[i + 1] : t.id.size();
                r.emplace_back(t.id.begin() + (std::ptrdiff_t)b, t.id.begin() + (std::ptrdiff_t)e);
            }
            return r;
        }
        void judge(Phen const& ph, Pset const& s, Verdict& v)
        {
            auto wrong = [&](std::string const& what) { if (v.wrong.empty()) v.wrong = ph.name + "/" + s.name + ": " + what; v.complete = false; };
            auto const& t = *s.tracker;
            auto ids = s.coll ? std::vector<u64>{t.id.empty() ? 999 : t.id[0]} : ph.ids;
            if (std::set<u64>(ids.begin(), ids.end()).size() != ids.size()) return wrong("duplicate object ids");
            if (t.set.empty())
            {
                if (!t.id.empty()) return wrong("active ids without active sets");
                if (!t.idx.empty()) return wrong("indices of active objects without active sets");
            }
            else
            {
                if (!increasing(t.set)) return wrong("active set starts decrease");
                if (t.set.back() > t.id.size()) return wrong("active set starts beyond the active ids");
                if (t.set[0] != 0) v.complete = false;
            }
            auto sets = active(t);
            for (auto& a : sets) if (std::set<u64>(a.begin(), a.end()).size() != a.size()) return wrong("an object is active twice");
            if (!ids.empty()) for (auto i : t.id) if (std::find(ids.begin(), ids.end(), i) == ids.end()) return wrong("an unknown object is active");
            if (!t.idx.empty() && t.idx.size() != t.id.size()) v.complete = false;
            if (s.coll && !t.id.empty() && t.id.size() != t.set.size())
            {
                bool counted = false;
                for (auto& p : s.props) if (p.kind == 1 || p.kind == 2 || p.kind == 4) counted = true;
                if (counted) return wrong("the collection is not active once per location in time");
                v.complete = false;
            }
            if (s.time)
            {
                auto const& x = *s.time;
                u64 n = x.type == 2 ? x.at.size() : x.at.size() / 2;
                if (!increasing(x.at)) return wrong("locations in time decrease");
                if (x.type == 1)
                {
                    if (x.counts.size() != n) return wrong("number of counts");
                    n = std::accumulate(x.counts.begin(), x.counts.end(), u64{0});
                }
                if (n != t.set.size()) return wrong("number of locations in time");
            }
            else if (!t.set.empty()) v.complete = false;
            if (s.space && s.space->n != (s.space->mobile ? t.id.size() : ids.size())) return wrong("number of coordinates");
            std::map<u64, u64> times;
            for (auto i : t.id) ++times[i];
            for (auto& p : s.props)
                switch (p.kind)
                {
                    case 0: if (p.n != ids.size()) return wrong("number of values of " + p.name); break;
                    case 1: if (p.n != t.id.size()) return wrong("number of values of " + p.name); break;
                    case 2:
                        if (p.per.size() != t.set.size()) return wrong("number of locations in time of " + p.name);
                        for (std::size_t i = 0; i < sets.size(); ++i)
                        {
                            if (!p.per.count(i)) { v.complete = false; break; }
                            if (p.per.at(i) != sets[i].size()) return wrong("number of values at a location in time of " + p.name);
                        }
                        break;
                    case 3:
                        if (p.per.size() != ids.size()) return wrong("number of objects of " + p.name);
                        for (auto i : ids) if (!p.per.count(i)) return wrong("an object without value of " + p.name);
                        break;
                    case 4:
                        if (p.per.size() != times.size()) return wrong("number of objects of " + p.name);
                        for (auto [i, n] : times)
                        {
                            if (!p.per.count(i)) return wrong("an object without value of " + p.name);
                            if (p.per.at(i) < n) return wrong("number of values of an object of " + p.name);
                            if (p.per.at(i) != n) v.complete = false;
                        }
                        if (t.idx.size() != t.id.size()) return wrong("number of indices of active objects, needed for " + p.name);
                        break;
                    case 5:
                        if (p.locs.size() != t.set.size()) return wrong("number of locations in time of " + p.name);
                        for (std::size_t i = 0; i < sets.size(); ++i)
                            if (!p.locs.count(i) || p.locs.at(i) != sets[i]) { v.complete = false; break; }
                        break;
                }
        }
        Verdict judge()
        {
            Verdict v;
            for (auto& p : phens)
            {
                for (auto& s : p->sets) judge(*p, *s, v);
                // ids are only looked at by validation next to property sets
                if (p->sets.empty() && std::set<u64>(p->ids.begin(), p->ids.end()).size() != p->ids.size()) v.complete = false;
            }
            return v;
        }

        // ------------------------------------------------------------------ steps of filling
        using Steps = std::vector<std::function<void()>>;
        // everything needed to make what is stored complete
        Steps missing()
        {
            Steps todo;
            for (auto& p_ : phens)
            {
                auto* p = p_.get();
                if (p->ids.size() < p->want_ids.size())
                    todo.push_back([this, p] { append(real(*p).object_id(), p->ids, std::vector<u64>(p->want_ids.begin() + (std::ptrdiff_t)p->ids.size(), p->want_ids.end())); });
                std::set<void*> seen;
                for (auto& s_ : p->sets)
                {
                    auto* s = s_.get();
                    auto* t = s->tracker.get();
                    auto const w = p->want[t];
                    auto tail = [](std::vector<u64> const& have, std::vector<u64> const& want) { return std::vector<u64>(want.begin() + (std::ptrdiff_t)std::min(have.size(), want.size()), want.end()); };
                    if (seen.insert(t).second)
                    {
                        if (t->set.size() < w.set.size()) todo.push_back([=, this] { append(real(*p, *s).object_tracker().active_set_index(), t->set, tail(t->set, w.set)); });
                        if (t->id.size() < w.id.size()) todo.push_back([=, this] { append(real(*p, *s).object_tracker().active_object_id(), t->id, tail(t->id, w.id)); });
                        if (t->idx.size() < w.idx.size()) todo.push_back([=, this] { append(real(*p, *s).object_tracker().active_object_index(), t->idx, tail(t->idx, w.idx)); });
                    }
                    if (auto* x = s->time.get(); x && seen.insert(x).second)
                    {
                        auto const wt = p->want_time[x];
                        if (x->at.size() < wt.at.size())
                            todo.push_back([=, this] { with_time(real(*p, *s).time_domain(), *x, [&](auto& v) { append(v, x->at, std::vector<u64>(wt.at.begin() + (std::ptrdiff_t)x->at.size(), wt.at.end())); }); });
                        if (x->counts.size() < wt.counts.size())
                            todo.push_back([=, this]
                            {
                                auto cell = real(*p, *s).time_domain().value<ldm::TimeCell>();
                                append(cell.count(), x->counts, tail(x->counts, wt.counts));
                            });
                    }
                    auto const& ids = s->coll ? std::vector<u64>{1} : p->want_ids;
                    if (auto* x = s->space.get())
                    {
                        u64 n = x->mobile ? w.id.size() : ids.size();
                        if (x->n < n)
                            todo.push_back([=, this] { with_space(real(*p, *s).space_domain(), *x, [&](auto& v) { v.expand(n - x->n); x->n = n; }); });
                    }
                    auto sets = active(w);
                    std::map<u64, u64> times;
                    for (auto i : w.id) ++times[i];
                    for (std::size_t k = 0; k < s->props.size(); ++k)
                    {
                        auto& q = s->props[k];
                        auto grow = [=, this](u64 key, u64 n) { grow_prop(*p, *s, s->props[k], key, n); };
                        if (q.kind == 0 && q.n < ids.size()) todo.push_back([=, n = ids.size() - q.n] { grow(0, n); });
                        if (q.kind == 1 && q.n < w.id.size()) todo.push_back([=, n = w.id.size() - q.n] { grow(0, n); });
                        if (q.kind == 2)
                            for (u64 i = 0; i < sets.size(); ++i) if (!q.per.count(i)) todo.push_back([=, n = sets[i].size()] { grow(i, n); });
                        if (q.kind == 3)
                            for (auto i : ids) if (!q.per.count(i)) todo.push_back([=] { grow(i, 1); });
                        if (q.kind == 4)
                            for (auto [i, n] : times)
                            {
                                if (!q.per.count(i)) todo.push_back([=] { grow(i, n); });
                                else if (q.per[i] < n)
                                    todo.push_back([=, this, i = i, n = n]
                                    {
                                        auto& q = s->props[k];
                                        real(*p, *s).properties().collection<ldm::different_shape::constant_shape::Properties>()[q.name].value()[i].expand(n - q.per[i]);
                                        q.per[i] = n;
                                    });
                            }
                        if (q.kind == 5)
                            for (u64 i = 0; i < sets.size(); ++i) if (!q.locs.count(i)) todo.push_back([=, this, ids = sets[i]] { grow_prop(*p, *s, s->props[k], i, ids); });
                    }
                }
            }
            return todo;
        }
        // Plan new content: more objects, more locations in time
        void plan(Phen& p, u64 seed)
        {
            auto r = [&, i = u64{0}](u64 n) mutable { return sim::mix(seed, ++i) % n; };
            if (p.with_ids && (p.want_ids.empty() || r(3) == 0))
            {
                // property sets with values per object which are not all the same kind can only be extended together: they are
                u64 n = 1 + r(5);
                for (u64 i = 0; i < n; ++i) p.want_ids.push_back(1 + r(4) + (p.want_ids.empty() ? 0 : *std::max_element(p.want_ids.begin(), p.want_ids.end())) + (r(20) == 0 ? u64{1} << 40 : 0));
                if (r(3) == 0 && p.ids.empty()) std::reverse(p.want_ids.begin(), p.want_ids.end());
            }
            // time domains with all trackers that go with them
            std::map<Time*, std::set<Tracker*>> together;
            std::map<Tracker*, std::vector<Pset*>> users;
            for (auto& s : p.sets) if (s->time) { together[s->time.get()].insert(s->tracker.get()); users[s->tracker.get()].push_back(s.get()); }
            std::set<Tracker*> done;
            std::set<Time*> tdone;
            for (auto& s : p.sets)
            {
                if (!s->time || tdone.count(s->time.get())) continue;
                // a tracker may be shared by time domains: they grow together
                std::set<Time*> ts{s->time.get()};
                std::set<Tracker*> ks;
                for (bool more = true; more;)
                {
                    more = false;
                    for (auto* t : ts) for (auto* k : together[t]) if (ks.insert(k).second) more = true;
                    for (auto* k : ks) for (auto* u : users[k]) if (ts.insert(u->time.get()).second) more = true;
                }
                u64 n = 1 + r(3);
                for (auto* t : ts)
                {
                    auto& w = p.want_time[t];
                    tdone.insert(t);
                    u64 last = w.at.empty() ? (r(8) ? r(100) : u64{1} << (20 + r(44))) : w.at.back();
                    auto next = [&] { last += r(4) * r(3); w.at.push_back(last); };
                    if (t->type == 2) for (u64 i = 0; i < n; ++i) next();
                    else if (t->type == 0) for (u64 i = 0; i < 2 * n; ++i) next();
                    else
                        for (u64 left = n; left;)
                        {
                            u64 c = r(left + 1);
                            next(); next();
                            w.counts.push_back(c);
                            left -= c;
                        }
                }
                for (auto* k : ks)
                {
                    auto& w = p.want[k];
                    bool coll = users[k].front()->coll, need_idx = users[k].front()->flavour & 16;
                    for (u64 i = 0; i < n; ++i)
                    {
                        w.set.push_back(w.id.size());
                        std::vector<u64> now;
                        if (coll) now.push_back(w.id.empty() ? 1 + r(1000) : w.id[0]);
                        else if (p.with_ids)
                        {
                            for (auto x : p.want_ids) if (r(3)) now.push_back(x);
                            if (r(4) == 0 && !now.empty()) std::rotate(now.begin(), now.begin() + (std::ptrdiff_t)r(now.size()), now.end());
                        }
                        else for (u64 x = 0; x < 6; ++x) if (r(2)) now.push_back(x * 7 + 3);
                        for (auto x : now)
                        {
                            if (need_idx) w.idx.push_back((u64)std::count(w.id.begin(), w.id.end(), x));
                            w.id.push_back(x);
                        }
                    }
                }
            }
        }
        void perform(std::function<void()> f)
        {
            try { f(); }
            catch (sim::Violation const&) { throw; }
            catch (std::exception const& e)
            {
                if (sim::faults_fired() == tolerated) violate("refused", std::string("a valid request failed: ") + e.what());
                broken = true;
                sim::probe("storage failed while filling");
            }
        }
        void fill(u64 seed, u64 order, u64 stop)
        {
            if (phens.empty()) return;
            if (missing().empty()) for (auto& p : phens) if (sim::mix(seed, p->name.size() + p->sets.size()) % 3) plan(*p, seed);
            auto todo = missing();
            if (order % 2) for (std::size_t i = todo.size(); i > 1; --i) std::swap(todo[i - 1], todo[sim::mix(order, i) % i]);
            u64 n = todo.size();
            if (stop && n) { n = stop % n; sim::probe("filling interrupted"); }
            for (u64 i = 0; i < n && !broken; ++i) perform(todo[i]);
        }

        // ------------------------------------------------------------------ operations
        Phen* pick(u64 a) { return phens.empty() ? nullptr : phens[a % phens.size()].get(); }
        void op_phen(Op const& op)
        {
            if (phens.size() >= 3) return;
            auto p = std::make_unique<Phen>();
            p->name = "p" + std::to_string(next_name++);
            p->with_ids = op.arg(0) % 5 != 0;
            perform([&] { ds->add_phenomenon(p->name); });
            if (!broken) phens.push_back(std::move(p));
        }
        void op_pset(Op const& op)
        {
            auto* p = pick(op.arg(0));
            if (!p || p->sets.size() >= 4) return;
            auto s = std::make_unique<Pset>();
            s->name = "s" + std::to_string(next_name++);
            s->coll = op.arg(1) % 4 == 0;
            int fl = (int)(op.arg(2) % 9);
            // what to share: property sets with time, of the same kind of collection, without anything stored yet differing
            std::vector<Pset*> with;
            for (auto& q : p->sets) if (q->time && q->coll == s->coll) with.push_back(q.get());
            if ((fl == 3 || fl == 4 || fl == 5 || fl == 7 || fl == 8) && with.empty()) fl = fl >= 7 ? 6 : 2;
            auto* src = with.empty() ? nullptr : with[op.arg(3) % with.size()];
            bool share_time = fl == 3 || fl == 5 || fl == 7 || fl == 8, share_tracker = fl == 4 || fl == 5 || fl == 8;
            if (fl == 3 || fl == 4 || fl == 7)
            {
                // a new time domain or tracker next to an existing one which is in use would have to catch up
                if (!p->want[src->tracker.get()].set.empty()) { fl = fl == 7 ? 8 : 5; share_time = share_tracker = true; }
            }
            s->flavour = (op.arg(4) & 1) ? 16 : 0;                            // indices of active objects recorded
            s->tracker = share_tracker ? src->tracker : std::make_shared<Tracker>();
            if (share_tracker) s->flavour = src->flavour & 16;
            bool own_time = fl == 2 || fl == 4 || fl == 6;
            if (share_time) s->time = src->time;
            else if (own_time)
            {
                s->time = std::make_shared<Time>();
                s->time->type = (int)(op.arg(5) % 3);
            }
            if (fl == 1 || fl >= 6)
            {
                s->space = std::make_shared<Space>();
                s->space->mobile = s->time && op.arg(6) % 2;
                s->space->point = (op.arg(6) >> 1) % 2;
                s->space->rank = 1 + (op.arg(6) >> 2) % 3;
                // stationary coordinates go with recorded objects
                if (!s->space->mobile && !p->with_ids && !s->coll) { s->space->rank = 1; }
            }
            perform([&]
            {
                auto& rp = real(*p);
                auto& c = s->coll ? rp.collection_property_sets() : rp.property_sets();
                ldm::Clock clock{lue::data_model::time::Unit::day, 1 + op.arg(7) % 3};
                ldm::SpaceConfiguration sc{s->space && s->space->mobile ? ldm::Mobility::mobile : ldm::Mobility::stationary, s->space && s->space->point ? ldm::SpaceDomainItemType::point : ldm::SpaceDomainItemType::box};
                ldm::TimeConfiguration tc{!s->time || s->time->type == 0 ? ldm::TimeDomainItemType::box : s->time->type == 1 ? ldm::TimeDomainItemType::cell : ldm::TimeDomainItemType::point};
                auto const& dt = h5::native_float64;
                u64 rank = s->space ? s->space->rank : 1;
                switch (fl)
                {
                    case 0: c.add(s->name); break;
                    case 1: c.add(s->name, sc, dt, rank); break;
                    case 2: c.add(s->name, tc, clock); break;
                    case 3: c.add(s->name, real(*p, *src).time_domain()); break;
                    case 4: c.add(s->name, tc, clock, real(*p, *src).object_tracker()); break;
                    case 5: c.add(s->name, real(*p, *src).time_domain(), real(*p, *src).object_tracker()); break;
                    case 6: c.add(s->name, tc, clock, sc, dt, rank); break;
                    case 7: c.add(s->name, real(*p, *src).time_domain(), sc, dt, rank); break;
                    case 8: c.add(s->name, real(*p, *src).time_domain(), real(*p, *src).object_tracker(), sc, dt, rank); break;
                }
            });
            if (broken) return;
            if (s->time) sim::probe(share_time ? "shared time domain" : "time domain");
            if (s->space) sim::probe(s->space->mobile ? "mobile space domain" : "stationary space domain");
            if (s->coll) sim::probe("collection property set");
            // a tracker whose content exists already while the time domain is new
            p->sets.push_back(std::move(s));
        }
        void op_prop(Op const& op)
        {
            auto* p = pick(op.arg(0));
            if (!p || p->sets.empty()) return;
            auto& s = *p->sets[op.arg(1) % p->sets.size()];
            Prop q;
            q.name = "q" + std::to_string(next_name++);
            q.kind = (int)(op.arg(2) % 6);
            if (!s.time && q.kind != 3) q.kind = 0;
            if (q.kind == 3 && s.coll) q.kind = 0;      // which object a collection is, is not recorded there
            if (q.kind == 4 && !(s.flavour & 16)) q.kind = 1;
            perform([&]
            {
                auto& rp = real(*p, s).properties();
                auto const& dt = op.arg(3) % 2 ? h5::native_float32 : h5::native_uint64;
                h5::Shape shape{2, 2};
                switch (q.kind)
                {
                    case 0: if (op.arg(4) % 2) rp.add(q.name, dt, shape); else rp.add(q.name, dt); break;
                    case 1: if (op.arg(4) % 2) rp.add<ldm::same_shape::constant_shape::Property>(q.name, dt, shape); else rp.add<ldm::same_shape::constant_shape::Property>(q.name, dt); break;
                    case 2: rp.add<ldm::same_shape::variable_shape::Property>(q.name, dt, 2); break;
                    case 3: rp.add(q.name, dt, ldm::Rank{2}); break;
                    case 4: rp.add<ldm::different_shape::constant_shape::Property>(q.name, dt, 2); break;
                    case 5: rp.add<ldm::different_shape::variable_shape::Property>(q.name, dt, 2); break;
                }
            });
            if (!broken) s.props.push_back(std::move(q));
        }
        // A single inconsistency
        void op_break(Op const& op)
        {
            if (!broke.empty()) return;
            std::vector<std::pair<std::string, std::function<void()>>> can;
            u64 a = op.arg(1), b = op.arg(2);
            for (auto& p_ : phens)
            {
                auto* p = p_.get();
                if (p->sets.empty()) continue;
                if (p->ids.size() > 1)
                    can.push_back({"duplicate object id", [=, this] { u64 i = a % p->ids.size(), j = (i + 1 + b % (p->ids.size() - 1)) % p->ids.size(); overwrite(real(*p).object_id(), p->ids, i, p->ids[j]); }});
                bool counted = false;
                for (auto& s : p->sets) counted = counted || (!s->coll && ((s->space && !s->space->mobile) || std::any_of(s->props.begin(), s->props.end(), [](auto& q) { return q.kind == 0 || q.kind == 3; })));
                if (counted)
                    can.push_back({"object without information", [=, this] { append(real(*p).object_id(), p->ids, std::vector<u64>{1 + std::accumulate(p->ids.begin(), p->ids.end(), u64{0}, [](u64 x, u64 y) { return std::max(x, y); })}); }});
                for (auto& s_ : p->sets)
                {
                    auto* s = s_.get();
                    auto* t = s->tracker.get();
                    auto tracker = [=, this]() -> ldm::ObjectTracker& { return real(*p, *s).object_tracker(); };
                    if (!t->id.empty() && (s->coll ? t->id.size() > 1 : !p->ids.empty()))
                        can.push_back({"unknown object active", [=, this] { overwrite(tracker().active_object_id(), t->id, s->coll ? 1 + a % (t->id.size() - 1) : a % t->id.size(), u64{77777777777}); }});
                    if (!t->set.empty())
                    {
                        can.push_back({"active set beyond ids", [=, this] { overwrite(tracker().active_set_index(), t->set, a % t->set.size(), t->id.size() + 1 + b % 3); }});
                        if (t->set.back() > 0)
                            can.push_back({"decreasing active sets", [=, this]
                            {
                                // some set starting after 0, followed by one that starts before
                                std::size_t i = t->set.size() - 1;
                                if (i == 0) overwrite(tracker().active_set_index(), t->set, 0, t->id.size() + 1);
                                else overwrite(tracker().active_set_index(), t->set, i - 1, t->set[i] + 1);
                            }});
                        if (s->time)
                            can.push_back({"active set without location in time", [=, this] { append(tracker().active_set_index(), t->set, std::vector<u64>{t->id.size()}); }});
                    }
                    auto sets = active(*t);
                    for (std::size_t i = 0; i < sets.size(); ++i)
                        if (sets[i].size() > 1)
                        {
                            can.push_back({"object active twice", [=, this] { u64 k = t->set[i] + a % (sets[i].size() - 1); overwrite(tracker().active_object_id(), t->id, k, t->id[k + 1]); }});
                            break;
                        }
                    if (auto* x = s->time.get())
                    {
                        if (x->at.size() > 1)
                            can.push_back({"decreasing time", [=, this] { std::size_t i = a % (x->at.size() - 1); with_time(real(*p, *s).time_domain(), *x, [&](auto& v) { overwrite(v, x->at, i, x->at[i + 1] + 1 + b % 5); }); }});
                        if (x->type != 1)
                            can.push_back({"location in time without active set", [=, this] { with_time(real(*p, *s).time_domain(), *x, [&](auto& v) { append(v, x->at, std::vector<u64>((std::size_t)(x->type == 2 ? 1 : 2), x->at.empty() ? u64{0} : x->at.back())); }); }});
                        else
                        {
                            can.push_back({"count missing", [=, this] { with_time(real(*p, *s).time_domain(), *x, [&](auto& v) { append(v, x->at, std::vector<u64>(2, x->at.empty() ? u64{0} : x->at.back())); }); }});
                            if (!x->counts.empty())
                                can.push_back({"count wrong", [=, this]
                                {
                                    auto cell = real(*p, *s).time_domain().value<ldm::TimeCell>();
                                    std::size_t i = a % x->counts.size();
                                    overwrite(cell.count(), x->counts, i, x->counts[i] + 1 + b % 2);
                                }});
                        }
                    }
                    if (auto* x = s->space.get())
                        can.push_back({"coordinates too many", [=, this] { with_space(real(*p, *s).space_domain(), *x, [&](auto& v) { u64 n = 1 + a % 3; v.expand(n); x->n += n; }); }});
                    for (std::size_t k = 0; k < s->props.size(); ++k)
                    {
                        auto kind = s->props[k].kind;
                        if (kind <= 1) can.push_back({"values too many", [=, this] { grow_prop(*p, *s, s->props[k], 0, 1 + a % 3); }});
                        if (kind == 2)
                        {
                            can.push_back({"location in time of property too many", [=, this] { grow_prop(*p, *s, s->props[k], s->props[k].per.size(), a % 3); }});
                            if (!s->props[k].per.empty())
                                can.push_back({"values of location too many", [=, this]
                                {
                                    auto& q = s->props[k];
                                    auto it = std::next(q.per.begin(), (std::ptrdiff_t)(a % q.per.size()));
                                    real(*p, *s).properties().collection<ldm::same_shape::variable_shape::Properties>()[q.name].value()[it->first].expand(1 + b % 2);
                                    it->second += 1 + b % 2;
                                }});
                        }
                        if (kind == 3 || kind == 4) can.push_back({"object of property too many", [=, this] { grow_prop(*p, *s, s->props[k], 555555555 + a % 7, 1); }});
                        if (kind == 5) can.push_back({"location in time of property too many", [=, this] { grow_prop(*p, *s, s->props[k], s->props[k].locs.size(), std::vector<u64>{3, 10}); }});
                    }
                }
            }
            if (can.empty()) return;
            auto& c = can[op.arg(0) % can.size()];
            perform(c.second);
            static std::set<std::string> names;
            sim::probe(names.insert("introduced: " + std::string(c.first)).first->c_str());
            broke = c.first;
        }
        std::string broke;
        u64 tolerated = 0;                          // failures which only concerned reading, while validating
        static long nr_open() { return H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL); }
        void check(u64 how)
        {
            Verdict v;
            v = judge();
            auto fired = sim::faults_fired();
            auto writes = sim::fs_write_calls();
            auto open = nr_open();
            bool errors = false, threw = false;
            std::string text;
            try
            {
                h5::Issues issues;
                if (ds && (writable || how % 3)) ldm::validate(*ds, issues);
                else ldm::validate(path, issues);
                errors = issues.errors_found();
                text = ldm::message(issues);
                if (errors != !issues.errors().empty()) violate("issues", "errors are and are not found");
                if (!errors && !issues.warnings_found() && !text.empty()) violate("issues", "text about issues without issues: " + text);
                if (errors && text.find("error: ") == std::string::npos) violate("issues", "errors are not part of the text: " + text);
            }
            catch (sim::Violation const&) { throw; }
            catch (std::exception const& e) { threw = true; text = e.what(); }
            bool faulty = sim::faults_fired() != fired;
            if (!faulty && nr_open() != open) violate("not-released", "validating left objects open");
            if ((!ds || !writable) && sim::fs_write_calls() != writes) violate("modified", "validating a dataset opened for reading wrote to storage");
            if (threw && !faulty) violate("failed", "validating failed: " + text + (v.wrong.empty() ? "" : " (" + v.wrong + ")"));
            if (threw) sim::probe("validation failed visibly");
            else
            {
                if (!v.wrong.empty() && !errors) violate("accepted", "an inconsistent dataset is found valid: " + v.wrong);
                if (v.complete && errors && !faulty) violate("rejected", "a consistent dataset is found invalid: " + text);
                sim::probe(v.complete ? "consistent dataset validated" : !v.wrong.empty() ? "inconsistent dataset validated" : "incomplete dataset validated");
            }
            if (how / 3 % 2 && !threw)
            {
                fired = sim::faults_fired();
                bool valid = true;
                try
                {
                    if (ds && (writable || how % 3 != 1)) ldm::assert_is_valid(*ds, how / 6 % 2);
                    else ldm::assert_is_valid(path, how / 6 % 2);
                }
                catch (std::exception const& e) { valid = false; text = e.what(); }
                faulty = faulty || sim::faults_fired() != fired;
                if (valid && !v.wrong.empty()) violate("accepted", "an inconsistent dataset is asserted to be valid: " + v.wrong);
                if (!valid && v.complete && !faulty && !(how / 6 % 2)) violate("rejected", "a consistent dataset is asserted to be invalid: " + text);
            }
        }
        void close() { ds.reset(); }
        void open(bool rw)
        {
            try { ds = std::make_unique<ldm::Dataset>(ldm::open_dataset(path, rw ? H5F_ACC_RDWR : H5F_ACC_RDONLY)); writable = rw; }
            catch (std::exception const& e)
            {
                if (sim::faults_fired() == tolerated) violate("refused", std::string("opening failed: ") + e.what());
                broken = true;
            }
        }
        void generate(Rng& g, Trace& t) override
        {
            auto seed = [&] { return g.next() >> 24; };
            int n = (int)g.range(1, 2);
            for (int i = 0; i < n; ++i) t.ops.push_back({"phen", {seed()}});
            auto grow = [&](int m)
            {
                for (int i = 0; i < m; ++i)
                    if (g.chance(0.4)) t.ops.push_back({"pset", {seed(), seed(), seed(), seed(), seed(), seed(), seed(), seed()}});
                    else t.ops.push_back({"prop", {seed(), seed(), seed(), seed(), seed()}});
            };
            t.ops.push_back({"pset", {seed(), seed(), seed(), seed(), seed(), seed(), seed(), seed()}});
            grow((int)g.range(1, 8));
            int m = (int)g.range(1, 4);
            bool wrong = profile == "D15" ? g.chance(0.85) : g.chance(0.2);
            for (int i = 0; i < m; ++i)
            {
                t.ops.push_back({"fill", {seed(), seed(), g.chance(0.25) ? seed() : 0}});
                if (g.chance(0.3)) t.ops.push_back({"reopen", {g.below(2)}});
                if (g.chance(0.6)) t.ops.push_back({"check", {g.below(12)}});
                if (g.chance(0.2)) grow(1);
                if (g.chance(0.15)) t.ops.push_back({"flush", {}});
            }
            if (wrong)
            {
                t.ops.push_back({"fill", {seed(), seed(), 0}});
                t.ops.push_back({"fill", {seed(), seed(), 0}});
                t.ops.push_back({"break", {seed(), seed(), seed()}});
                t.ops.push_back({"check", {g.below(12)}});
            }
            t.ops.push_back({"reopen", {g.below(3)}});
            t.ops.push_back({"check", {g.below(12)}});
            t.ops.push_back({"closed", {}});
            t.ops.push_back({"check", {g.below(12)}});
            auto fault = [&](std::uint32_t cls, std::uint32_t kind, int far, std::uint32_t count)
            {
                sim::Fault f;
                f.op = (std::uint32_t)g.below(t.ops.size());
                if (g.chance(0.6))
                    for (int i = 0; i < 6 && t.ops[f.op].kind != "check"; ++i) f.op = (std::uint32_t)g.below(t.ops.size());
                f.nth = (std::uint32_t)g.below((u64)far);
                f.cls = cls;
                f.kind = kind;
                f.arg = (std::uint32_t)g.below(5000);
                f.count = count;
                t.faults.push_back(f);
            };
            for (int i = g.chance(0.5) ? (int)g.below(4) : 0; i-- > 0;) fault(g.chance(0.5) ? sim::fc_read : sim::fc_write, g.chance(0.5) ? sim::fk_short : sim::fk_eintr, 6, 1 + (std::uint32_t)g.below(4));
            if (g.chance(0.35))
                for (int i = 1 + (int)g.below(2); i-- > 0;)
                    switch (g.below(6))
                    {
                        case 0: fault(sim::fc_open, g.chance(0.5) ? sim::fk_eacces : sim::fk_emfile, 1, 1); break;
                        case 1: fault(sim::fc_write, g.chance(0.5) ? sim::fk_eio : sim::fk_enospc, 20, g.chance(0.7) ? 1 : 1000); break;
                        default: fault(sim::fc_read, sim::fk_eio, g.chance(0.5) ? 4 : 40, g.chance(0.7) ? 1 : 1 + (std::uint32_t)g.below(20)); break;
                    }
        }
        void begin(Run& r) override
        {
            run = &r;
            h5ledger::without_accumulator(true);
            H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
            sim::NoFaults quiet;
            { auto f = h5::create_in_memory_file("warm"); }
            ds = std::make_unique<ldm::Dataset>(ldm::create_dataset(path));
            writable = true;
        }
        void step(Run&, Op const& op) override
        {
            // what is stored after writing failed, or in an object that could not be closed, is not known
            if (sim::faults_fired() != tolerated) broken = true;
            if (broken) return;
            auto const& k = op.kind;
            if (k == "closed") { close(); return; }
            if (k == "reopen") { if (ds) { close(); if (sim::faults_fired() == tolerated) open(op.arg(0) != 2); } return; }
            if (k == "check")
            {
                check(op.arg(0));
                if (!ds || !writable) tolerated = sim::faults_fired();
                return;
            }
            if (!ds || !writable) return;
            if (k == "phen") op_phen(op);
            else if (k == "pset") op_pset(op);
            else if (k == "prop") op_prop(op);
            else if (k == "fill") fill(op.arg(0), op.arg(1), op.arg(2));
            else if (k == "break") op_break(op);
            else if (k == "flush") perform([&] { H5Fflush(ds->id(), H5F_SCOPE_GLOBAL); });
        }
        void finish(Run&) override
        {
            ds.reset();
            sim::state(sim::mix(phens.size(), std::hash<std::string>{}(judge().wrong)));
        }
    };
}

int main(int argc, char** argv)
{
    return sim::main_(argc, argv, [](std::string const& p) -> sim::Harness* { return new H{p}; });
}
