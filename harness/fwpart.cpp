// F06: partition data, partitions and the arguments and results of actions travel between processes.
// Next to every handle to partition data, the simulator keeps what it must hold and with which other
// handles it shares its elements: copies within a process do, copies which travelled do not.
#include "fw.hpp"

namespace fw {

    constexpr std::size_t nr_handles = 5, nr_parts = 4, nr_kinds = 6;

    template<typename T, lue::Rank r> using Buffer = lue::ArrayPartitionData<T, r>;
    template<typename T, lue::Rank r> using Part = lue::ArrayPartition<T, r>;
    template<typename T> using Elements = std::shared_ptr<std::vector<T>>;

    template<typename T>
    T nth_value(u64 seed, u64 i)
    {
        u64 v = sim::mix(seed, i);
        if constexpr (std::is_same_v<T, D>) return v % 16 == 0 ? std::numeric_limits<D>::quiet_NaN() : v % 16 == 1 ? -0.0 : (D)(i64)v;
        else return (T)v;
    }

    // ------------------------------------------------------------------ code running in other processes
    // Change the first element of what arrived, and return it
    template<typename T, lue::Rank r>
    Buffer<T, r> change(Buffer<T, r> data, T value)
    {
        if (!data.empty()) data[0] = value;
        return data;
    }
    template<typename T, lue::Rank r>
    struct ChangeAction: hpx::actions::make_action<decltype(&change<T, r>), &change<T, r>, ChangeAction<T, r>>::type
    {
    };
    // Store data in a partition, change the data, and return what the partition holds, changed at the end
    template<typename T, lue::Rank r>
    Buffer<T, r> store(Part<T, r> partition, Buffer<T, r> data, T first, T last)
    {
        partition.wait();
        partition.set_data(hpx::launch::sync, data);
        if (!data.empty()) data[0] = first;
        Buffer<T, r> result = partition.data(hpx::launch::async).get();
        if (!result.empty()) result[(Index)result.nr_elements() - 1] = last;
        return result;
    }
    template<typename T, lue::Rank r>
    struct StoreAction: hpx::actions::make_action<decltype(&store<T, r>), &store<T, r>, StoreAction<T, r>>::type
    {
    };
    // The partition travels as a result
    template<typename T, lue::Rank r>
    Part<T, r> make_part(lue::Shape<Count, r> shape, T value)
    {
        typename Part<T, r>::Offset offset{};
        offset.fill(3);
        Part<T, r> p{hpx::find_here(), offset, shape, value};
        return p;
    }
    template<typename T, lue::Rank r>
    struct MakeAction: hpx::actions::make_action<decltype(&make_part<T, r>), &make_part<T, r>, MakeAction<T, r>>::type
    {
    };

    template<typename T, lue::Rank r>
    struct Store
    {
        using S = std::array<Count, r>;
        struct Handle { Buffer<T, r> d; S shape; Elements<T> e; };
        struct P
        {
            Part<T, r> p;
            std::uint32_t loc;
            typename Part<T, r>::Offset offset;
            std::shared_ptr<S> shape;        // shared by clients to the same partition
            std::shared_ptr<Elements<T>> e;
            std::shared_ptr<std::vector<std::function<void()>>> pending;
        };
        std::array<Opt<Handle>, nr_handles> hs;
        std::array<Opt<P>, nr_parts> ps;
        std::array<Opt<std::pair<lue::Array<T, r>, Handle>>, 3> as;    // plain arrays never share
        char const* name;
        bool flux = false;               // code running here is changing data held here

        static std::size_t size(S const& s)
        {
            std::size_t n = 1;
            for (auto x : s) n *= (std::size_t)x;
            return n;
        }
        static lue::Shape<Count, r> shape(S const& s)
        {
            lue::Shape<Count, r> x;
            for (std::size_t i = 0; i < r; ++i) x[i] = s[i];
            return x;
        }
        static S some_shape(u64 seed)
        {
            S s;
            for (std::size_t i = 0; i < r; ++i)
            {
                u64 v = (seed >> (8 * i)) & 255;
                s[i] = v < 10 ? 0 : (Count)(1 + v % (r == 1 ? 30 : 7));
            }
            return s;
        }
        static Elements<T> elements(S const& s, u64 seed)
        {
            auto e = std::make_shared<std::vector<T>>(size(s));
            for (std::size_t i = 0; i < e->size(); ++i) (*e)[i] = nth_value<T>(seed, i);
            return e;
        }
        static Elements<T> deep(Elements<T> const& e) { return std::make_shared<std::vector<T>>(*e); }

        template<typename X>
        void compare(X const& d, S const& s, Elements<T> const& e, std::string what)
        {
            what = std::string(name) + ": " + what;
            for (std::size_t i = 0; i < r; ++i)
                if ((Count)d.shape()[i] != s[i]) violate("shape", what + ": extent " + std::to_string(d.shape()[i]) + " instead of " + std::to_string(s[i]));
            if ((std::size_t)d.nr_elements() != size(s)) violate("shape", what + ": " + std::to_string(d.nr_elements()) + " elements instead of " + std::to_string(size(s)));
            if (d.empty() != (size(s) == 0)) violate("shape", what + ": wrong about being empty");
            if ((std::size_t)(d.end() - d.begin()) != size(s)) violate("shape", what + ": a range of " + std::to_string(d.end() - d.begin()) + " elements instead of " + std::to_string(size(s)));
            for (std::size_t i = 0; i < size(s); ++i)
            {
                T v = d[(Index)i], u;
                if constexpr (r == 1) u = d((Index)i); else u = d((Index)i / s[1], (Index)i % s[1]);
                if (std::memcmp(&v, &(*e)[i], sizeof v) || std::memcmp(&u, &(*e)[i], sizeof v))
                    violate("element", what + ": element " + std::to_string(i) + " of " + std::to_string(size(s)) + " is " + text(Opt<T>{v}) + " (" + text(Opt<T>{u}) + " by index) instead of " + text(Opt<T>{(*e)[i]}));
            }
        }
        void check_handles(char const* what)
        {
            for (std::size_t i = 0; i < nr_handles; ++i)
                if (hs[i]) compare(hs[i]->d, hs[i]->shape, hs[i]->e, std::string(what) + ": data " + std::to_string(i));
            for (std::size_t i = 0; i < as.size(); ++i)
                if (as[i]) compare(as[i]->first, as[i]->second.shape, as[i]->second.e, std::string(what) + ": array " + std::to_string(i));
        }
        void settle(P& p)
        {
            auto todo = std::move(*p.pending);
            p.pending->clear();
            for (auto& f : todo) f();
        }
        void settle()
        {
            for (auto& p : ps) if (p) settle(*p);
            flux = false;
        }
        void touch(P& p)    // before using a partition
        {
            if (p.loc == 0) settle(); else settle(p);
        }
        void check_part(P& p, std::string what)
        {
            settle(p);
            p.p.wait();
            auto s = p.p.shape(hpx::launch::sync);
            auto o = p.p.offset(hpx::launch::async).get();
            if (p.p.nr_elements(hpx::launch::sync) != (Count)size(*p.shape)) violate("shape", what + ": wrong number of elements");
            for (std::size_t i = 0; i < r; ++i)
            {
                if (s[i] != (*p.shape)[i]) violate("shape", what + ": extent " + std::to_string(s[i]) + " instead of " + std::to_string((*p.shape)[i]));
                if (o[i] != p.offset[i]) violate("offset", what + ": offset " + std::to_string(o[i]) + " instead of " + std::to_string(p.offset[i]));
            }
            compare(p.p.data(hpx::launch::sync), *p.shape, *p.e, what);
        }
        Handle* find(u64 slot)
        {
            for (std::size_t i = 0; i < nr_handles; ++i)
                if (auto& h = hs[(slot + i) % nr_handles]) return &*h;
            return nullptr;
        }
        P* find_part(u64 slot)
        {
            for (std::size_t i = 0; i < nr_parts; ++i)
                if (auto& p = ps[(slot + i) % nr_parts]) return &*p;
            return nullptr;
        }
        void put(u64 slot, Buffer<T, r>&& d, S const& s, Elements<T> e)
        {
            auto& h = hs[slot % nr_handles];
            h.reset();
            h.emplace(Handle{std::move(d), s, std::move(e)});
        }
        void put_part(u64 slot, Part<T, r>&& p, std::uint32_t loc, typename Part<T, r>::Offset const& o, S const& s, Elements<T> e)
        {
            auto& q = ps[slot % nr_parts];
            if (q) settle(*q);
            q.reset();
            q.emplace(P{std::move(p), loc, o, std::make_shared<S>(s), std::make_shared<Elements<T>>(std::move(e)), std::make_shared<std::vector<std::function<void()>>>()});
        }
        void clear()
        {
            settle();
            for (auto& h : hs) h.reset();
            for (auto& p : ps) p.reset();
            for (auto& a : as) a.reset();
        }
        std::size_t nr_partitions() const
        {
            std::set<void*> x;
            for (auto& p : ps) if (p) x.insert(p->shape.get());
            return x.size();
        }

        void step(Op const& op)
        {
            u64 const a1 = op.arg(1), a2 = op.arg(2), a3 = op.arg(3), a4 = op.arg(4);
            auto const nloc = hpx::sim::nr_localities();
            auto loc_id = [](std::uint32_t l) { return hpx::id_type{hpx::sim::locality_object(l)}; };
            if (op.kind == "buffer")
            {
                settle();
                S s = some_shape(a2);
                auto e = elements(s, a3);
                if (a4 % 3 == 0)
                {
                    e->assign(e->size(), nth_value<T>(a3, 0));
                    put(a1, Buffer<T, r>{shape(s), nth_value<T>(a3, 0)}, s, e);
                }
                else if (a4 % 3 == 1) put(a1, Buffer<T, r>{shape(s), e->begin(), e->end()}, s, e);
                else
                {
                    Buffer<T, r> d{shape(s)};
                    std::copy(e->begin(), e->end(), d.begin());
                    put(a1, std::move(d), s, e);
                }
            }
            else if (op.kind == "part")
            {
                settle();
                auto l = (std::uint32_t)(a2 % nloc);
                typename Part<T, r>::Offset o{};
                for (std::size_t i = 0; i < r; ++i) o[i] = (Index)((a3 >> (7 * i)) % 1000);
                S s = some_shape(a3 >> 20);
                if (a4 % 4 == 0)
                {
                    auto e = elements(s, a3);
                    e->assign(e->size(), nth_value<T>(a3, 0));
                    put_part(a1, Part<T, r>{loc_id(l), o, shape(s), nth_value<T>(a3, 0)}, l, o, s, e);
                }
                else if (a4 % 4 == 1)
                {
                    // made there, its data replaced from here
                    auto e = elements(s, a3);
                    Part<T, r> p{loc_id(l), o, shape(s)};
                    p.wait();
                    p.fill(hpx::launch::async, nth_value<T>(a3, 0)).get();
                    e->assign(e->size(), nth_value<T>(a3, 0));
                    put_part(a1, std::move(p), l, o, s, e);
                }
                else if (a4 % 4 == 2)
                {
                    // made there, by code running there
                    o.fill(3);
                    auto e = elements(s, a3);
                    e->assign(e->size(), nth_value<T>(a3, 0));
                    hpx::future<Part<T, r>> f = hpx::async(MakeAction<T, r>{}, loc_id(l), shape(s), nth_value<T>(a3, 0));
                    put_part(a1, Part<T, r>{std::move(f)}, l, o, s, e);
                }
                else if (auto* h = find(a3))
                {
                    auto e = h->e;
                    S hs_ = h->shape;
                    put_part(a1, Part<T, r>{loc_id(l), o, std::move(h->d)}, l, o, hs_, l == 0 ? e : deep(e));
                    S none;
                    none.fill(0);
                    h->shape = none;                             // moved from
                    h->e = std::make_shared<std::vector<T>>();
                    sim::probe("data moved into partition");
                }
            }
            else if (op.kind == "data")
            {
                if (auto* p = find_part(a1))
                {
                    touch(*p);
                    p->p.wait();
                    auto e = *p->e;
                    if (p->loc) e = deep(e);
                    if (a3 % 3 == 0) { settle(); put(a2, p->p.data(hpx::launch::sync), *p->shape, e); }
                    else
                    {
                        auto f = std::make_shared<hpx::future<Buffer<T, r>>>(p->p.data(hpx::launch::async));
                        p->pending->push_back([this, f, a2, s = *p->shape, e] { put(a2, f->get(), s, e); });
                        sim::probe("data asked for");
                    }
                }
            }
            else if (op.kind == "slice")
            {
                if (auto* p = find_part(a1))
                {
                    touch(*p);
                    p->p.wait();
                    auto [s, sl, e] = cut(*p->shape, *p->e, a3);
                    if (a4 % 2) { settle(); put(a2, p->p.slice(hpx::launch::sync, sl), s, e); }
                    else
                    {
                        auto f = std::make_shared<hpx::future<Buffer<T, r>>>(p->p.slice(hpx::launch::async, sl));
                        p->pending->push_back([this, f, a2, s = s, e = e] { put(a2, f->get(), s, e); });
                    }
                    sim::probe("slice of partition");
                }
            }
            else if (op.kind == "cut")
            {
                settle();
                if (auto* h = find(a1))
                {
                    auto [s, sl, e] = cut(h->shape, h->e, a3);
                    put(a2, h->d.slice(sl), s, e);
                }
            }
            else if (op.kind == "fill")
            {
                if (auto* p = find_part(a1))
                {
                    if (p->loc == 0) settle(); else touch(*p);
                    p->p.wait();
                    T v = nth_value<T>(a2, 0);
                    (*p->e)->assign((*p->e)->size(), v);
                    if (a3 % 2) p->p.fill(hpx::launch::sync, v);
                    else
                    {
                        auto f = std::make_shared<hpx::future<void>>(p->p.fill(hpx::launch::async, v));
                        p->pending->push_back([f] { f->get(); });
                    }
                }
            }
            else if (op.kind == "set")
            {
                settle();
                auto* p = find_part(a1);
                auto* h = find(a2);
                if (p && h)
                {
                    p->p.wait();
                    *p->shape = h->shape;
                    *p->e = p->loc ? deep(h->e) : h->e;
                    if (a3 % 2) p->p.set_data(hpx::launch::sync, h->d);
                    else
                    {
                        auto f = std::make_shared<hpx::future<void>>(p->p.set_data(hpx::launch::async, h->d));
                        p->pending->push_back([f] { f->get(); });
                    }
                    sim::probe("partition data replaced");
                }
            }
            else if (op.kind == "elsewhere")
            {
                settle();
                auto* p = find_part(a1);
                auto* h = find(a2);
                auto x = (std::uint32_t)(a3 % nloc);
                if (p && h)
                {
                    T first = nth_value<T>(a4, 1), last = nth_value<T>(a4, 2);
                    auto arrived = x ? deep(h->e) : h->e;
                    *p->shape = h->shape;
                    *p->e = p->loc == x ? arrived : deep(arrived);
                    if (!arrived->empty()) arrived->front() = first;
                    auto result = p->loc == x ? *p->e : deep(*p->e);
                    if (!result->empty()) result->back() = last;
                    if (x) result = deep(result);
                    auto f = std::make_shared<hpx::future<Buffer<T, r>>>(hpx::async(StoreAction<T, r>{}, loc_id(x), p->p, h->d, first, last));
                    p->pending->push_back([this, f, slot = op.arg(5), s = h->shape, result] { put(slot, f->get(), s, result); });
                    if (x == 0) flux = true;
                    if (x != p->loc) sim::probe("partition used from another locality");
                }
            }
            else if (op.kind == "change")
            {
                settle();
                if (auto* h = find(a1))
                {
                    auto x = (std::uint32_t)(a3 % nloc);
                    T v = nth_value<T>(a4, 0);
                    auto e = x ? deep(h->e) : h->e;
                    if (!e->empty()) e->front() = v;
                    S s = h->shape;
                    Buffer<T, r> d = hpx::async(ChangeAction<T, r>{}, loc_id(x), h->d, v).get();
                    if (x) e = deep(e);
                    put(a2, std::move(d), s, e);
                    if (x) sim::probe("data sent and returned");
                }
            }
            else if (op.kind == "copy")
            {
                settle();
                auto* h = find(a1);
                auto& to = hs[a2 % nr_handles];
                if (h)
                {
                    S s = h->shape;
                    auto e = h->e;
                    if (!to) to.emplace(Handle{h->d, s, e});
                    else
                    {
                        to->d = h->d;
                        to->shape = s;
                        to->e = e;
                    }
                }
            }
            else if (op.kind == "move")
            {
                settle();
                auto* h = find(a1);
                auto& to = hs[a2 % nr_handles];
                if (h && (!to || &*to != h))
                {
                    if (!to) to.emplace(Handle{std::move(h->d), h->shape, h->e});
                    else
                    {
                        if (to->e.use_count() > 1) sim::probe("shared data moved to");
                        to->d = std::move(h->d);
                        to->shape = h->shape;
                        to->e = h->e;
                    }
                    h->shape.fill(0);
                    h->e = std::make_shared<std::vector<T>>();
                }
            }
            else if (op.kind == "deep")
            {
                settle();
                if (auto* h = find(a1)) put(a2, lue::deep_copy(h->d), h->shape, deep(h->e));
            }
            else if (op.kind == "poke")
            {
                settle();
                if (auto* h = find(a1); h && !h->e->empty())
                {
                    T v = nth_value<T>(a3, 0);
                    std::size_t i = a2 % h->e->size();
                    (*h->e)[i] = v;
                    if (a4 % 2) h->d[(Index)i] = v;
                    else if constexpr (r == 1) h->d((Index)i) = v;
                    else h->d((Index)i / h->shape[1], (Index)i % h->shape[1]) = v;
                }
            }
            else if (op.kind == "reshape")
            {
                settle();
                auto* h = find(a1);
                if (h && h->e.use_count() == 1)      // not allowed otherwise
                {
                    S s = some_shape(a2);
                    h->d.reshape(shape(s));
                    h->shape = s;
                    h->e = elements(s, a3);          // unspecified until assigned to
                    std::copy(h->e->begin(), h->e->end(), h->d.begin());
                    sim::probe("data reshaped");
                }
            }
            else if (op.kind == "erase")
            {
                settle();
                auto* h = find(a1);
                if (h && h->e.use_count() == 1 && !h->e->empty())
                {
                    auto dim = (std::size_t)(a2 % r);
                    Count n = h->shape[dim], b = (Count)(a3 % (u64)(n + 1)), e = b + (Count)((a3 >> 10) % (u64)(n - b + 1));
                    std::vector<T> left;
                    for (std::size_t i = 0; i < h->e->size(); ++i)
                    {
                        Count at = r == 1 ? (Count)i : dim == 0 ? (Count)i / h->shape[r - 1] : (Count)i % h->shape[r - 1];
                        if (at < b || at >= e) left.push_back((*h->e)[i]);
                    }
                    h->d.erase((lue::Rank)dim, b, e);
                    h->shape[dim] -= e - b;
                    *h->e = std::move(left);
                    sim::probe("elements erased");
                }
            }
            else if (op.kind == "same")
            {
                settle();
                auto* h = find(a1);
                auto* g = find(a2);
                if (h)
                {
                    bool nan = false;
                    if constexpr (std::is_floating_point_v<T>) { for (auto v : *h->e) if (std::isnan(v)) nan = true; for (auto v : *g->e) if (std::isnan(v)) nan = true; }
                    bool expect = h->shape == g->shape && *h->e == *g->e;
                    if (!nan && (h->d == g->d) != expect) violate("equality", std::string(name) + ": data with " + (expect ? "the same" : "other") + " content compares " + (expect ? "unequal" : "equal"));
                }
            }
            else if (op.kind == "array") plain(op);
            else if (op.kind == "client")
            {
                settle();
                if (auto* p = find_part(a1))
                {
                    auto copy = *p;
                    auto& q = ps[a2 % nr_parts];
                    q.reset();
                    q.emplace(std::move(copy));
                }
            }
            else if (op.kind == "drop")
            {
                settle();
                if (a2 % 2) ps[a1 % nr_parts].reset();
                else hs[a1 % nr_handles].reset();
            }
            else if (op.kind == "look")
            {
                if (auto* p = find_part(a1)) { touch(*p); check_part(*p, std::string(name) + ": partition"); }
            }
        }
        std::tuple<S, typename Buffer<T, r>::Slices, Elements<T>> cut(S const& s, Elements<T> const& e, u64 seed)
        {
            S out;
            typename Buffer<T, r>::Slices sl;
            std::array<Count, r> b;
            for (std::size_t i = 0; i < r; ++i)
            {
                u64 x = sim::mix(seed, i);
                b[i] = (Count)(x % (u64)(s[i] + 1));
                out[i] = (Count)((x >> 20) % (u64)(s[i] - b[i] + 1));
                sl[i] = {b[i], b[i] + out[i]};
            }
            auto v = std::make_shared<std::vector<T>>();
            if constexpr (r == 1)
                for (Count i = 0; i < out[0]; ++i) v->push_back((*e)[(std::size_t)(b[0] + i)]);
            else
                for (Count i = 0; i < out[0]; ++i)
                    for (Count j = 0; j < out[1]; ++j) v->push_back((*e)[(std::size_t)((b[0] + i) * s[1] + b[1] + j)]);
            return {out, sl, v};
        }
        void plain(Op const& op)
        {
            u64 const a1 = op.arg(1), a2 = op.arg(2), a3 = op.arg(3), a4 = op.arg(4);
            auto& a = as[a1 % as.size()];
            auto& b = as[a2 % as.size()];
            S s = some_shape(a3);
            typename lue::Array<T, r>::Shape sh;
            for (std::size_t i = 0; i < r; ++i) sh[i] = s[i];
            auto e = elements(s, a3);
            u64 what = a4 % 6;
            if (!a || what == 0)
            {
                e->assign(e->size(), nth_value<T>(a3, 0));
                a.reset();
                a.emplace(lue::Array<T, r>{sh, nth_value<T>(a3, 0)}, Handle{{}, s, e});
            }
            else if (what == 1)
            {
                a->first.reshape(sh);
                std::copy(e->begin(), e->end(), a->first.begin());
                a->second.shape = s;
                a->second.e = e;
            }
            else if (what == 2 && !a->second.e->empty())
            {
                a->first[a3 % a->second.e->size()] = nth_value<T>(a3, 1);
                (*a->second.e)[a3 % a->second.e->size()] = nth_value<T>(a3, 1);
            }
            else if (what == 3)
            {
                if (!b) b.emplace(a->first, a->second);
                else { b->first = a->first; b->second = a->second; }
                b->second.e = deep(a->second.e);
            }
            else if (what == 4 && &a != &b)
            {
                if (!b) b.emplace(std::move(a->first), a->second);
                else { b->first = std::move(a->first); b->second = a->second; }
                a->second.shape.fill(0);
                a->second.e = std::make_shared<std::vector<T>>();
            }
            else if (what == 5)
            {
                a->first.clear();
                a->second.shape.fill(0);
                a->second.e = std::make_shared<std::vector<T>>();
            }
        }
    };

    struct H: Base
    {
        using Base::Base;
        std::vector<std::string> profiles() const override { return {"F06"}; }
        std::tuple<Store<I, 1>, Store<D, 1>, Store<B, 1>, Store<I, 2>, Store<D, 2>, Store<B, 2>> stores;

        template<typename F>
        void each(F f)
        {
            std::apply([&](auto&... s) { (f(s), ...); }, stores);
        }
        template<typename F>
        void with_store(u64 k, F f)
        {
            std::size_t i = 0;
            each([&](auto& s) { if (i++ == k % nr_kinds) f(s); });
        }
        void generate(Rng& rng, Trace& t) override
        {
            t.cfg["loc"] = rng.chance(0.2) ? 1 : rng.range(2, 4);
            t.cfg["rnd"] = rng.range(0, 1000000);
            u64 kind = rng.below(nr_kinds);
            bool mixed = rng.chance(0.2);
            int n = (int)rng.range(4, 40);
            auto seed = [&] { return rng.next() >> 24; };
            auto k = [&] { return mixed ? rng.below(nr_kinds) : kind; };
            auto h = [&] { return rng.below(nr_handles); };
            auto p = [&] { return rng.below(nr_parts); };
            auto l = [&] { return rng.below(4); };
            t.ops.push_back({"buffer", {k(), h(), seed(), seed(), rng.below(3)}});
            t.ops.push_back({"part", {k(), p(), l(), seed(), rng.below(4)}});
            for (int i = 0; i < n; ++i)
                switch (rng.below(20))
                {
                    case 0: t.ops.push_back({"buffer", {k(), h(), seed(), seed(), rng.below(3)}}); break;
                    case 1: case 2: t.ops.push_back({"part", {k(), p(), l(), seed(), rng.below(4)}}); break;
                    case 3: case 4: t.ops.push_back({"data", {k(), p(), h(), rng.below(3)}}); break;
                    case 5: t.ops.push_back({"slice", {k(), p(), h(), seed(), rng.below(2)}}); break;
                    case 6: t.ops.push_back({"cut", {k(), h(), h(), seed()}}); break;
                    case 7: t.ops.push_back({"fill", {k(), p(), seed(), rng.below(2)}}); break;
                    case 8: case 9: t.ops.push_back({"set", {k(), p(), h(), rng.below(2)}}); break;
                    case 10: t.ops.push_back({"elsewhere", {k(), p(), h(), l(), seed(), h()}}); break;
                    case 11: t.ops.push_back({"change", {k(), h(), h(), l(), seed()}}); break;
                    case 12: t.ops.push_back({"copy", {k(), h(), h()}}); break;
                    case 13: t.ops.push_back({"move", {k(), h(), h()}}); break;
                    case 14: t.ops.push_back({rng.chance(0.5) ? "deep" : "same", {k(), h(), h()}}); break;
                    case 15: t.ops.push_back({"poke", {k(), h(), seed(), seed(), rng.below(2)}}); break;
                    case 16: t.ops.push_back({"reshape", {k(), h(), seed(), seed()}}); break;
                    case 17: t.ops.push_back({"erase", {k(), h(), rng.below(2), seed()}}); break;
                    case 18: t.ops.push_back({rng.chance(0.5) ? "client" : "drop", {k(), p(), rng.below(4)}}); break;
                    default:
                        if (rng.chance(0.3)) t.ops.push_back({"look", {k(), p()}});
                        else if (rng.chance(0.3)) t.ops.push_back({"run", {rng.below(300)}});
                        else t.ops.push_back({"array", {k(), rng.below(3), rng.below(3), seed(), rng.below(6)}});
                }
            generate_schedule(rng, t);
        }
        void begin(Run& r) override
        {
            run = &r;
            hpx::sim::random_seed = (u64)r.trace.c("rnd");
            hpx::sim::start((std::uint32_t)std::min<i64>(4, std::max<i64>(1, r.trace.c("loc", 1))));
            static char const* names[nr_kinds] = {"int32 1D", "float64 1D", "uint8 1D", "int32 2D", "float64 2D", "uint8 2D"};
            std::size_t i = 0;
            each([&](auto& s) { s.name = names[i++]; });
        }
        void step(Run&, Op const& op) override
        {
            if (op.kind == "run") progress(op.arg(0) % 2000);
            else with_store(op.arg(0), [&](auto& s) { s.step(op); });
            // elements of local partitions being filled are in flux
            each([&](auto& s)
            {
                if (s.flux) return;
                for (auto& p : s.ps) if (p && p->loc == 0 && !p->pending->empty()) return;
                s.check_handles("while running");
            });
        }
        void finish(Run&) override
        {
            std::size_t n = 0;
            each([&](auto& s)
            {
                s.settle();
                s.check_handles("at the end");
                for (auto& p : s.ps) if (p) s.check_part(*p, std::string(s.name) + ": partition at the end");
                n += s.nr_partitions();
            });
            hpx::sim::drain();
            if (hpx::sim::live_components != n) violate("ownership", std::to_string(hpx::sim::live_components) + " partitions exist while " + std::to_string(n) + " are referred to");
            each([&](auto& s) { s.clear(); });
            if (!hpx::sim::stop()) violate("leak", std::to_string(hpx::sim::live_components) + " partitions still exist after everything was released");
            note();
        }
    };
}

int main(int argc, char** argv)
{
    return sim::main_(argc, argv, [](std::string const& p) -> sim::Harness* { return new fw::H{p}; });
}
