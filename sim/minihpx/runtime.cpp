// Fibers, scheduler and parcels of the HPX stand-in. Every decision is taken from the trace.
#include "minihpx.hpp"
#include "simkit.hpp"
#include <cxxabi.h>
#include <deque>
#include <random>
#include <sys/mman.h>
#include <ucontext.h>

namespace __cxxabiv1 {
    struct __cxa_eh_globals { void* caughtExceptions; unsigned int uncaughtExceptions; };
}

namespace hpx::detail { int inline_depth = 0; }

namespace { std::uint64_t random_device_count = 0; }
namespace hpx::sim { std::uint64_t random_seed = 0; }
// randomness of the framework comes from here: the same in each execution of a trace
std::random_device::result_type std::random_device::_M_getval()
{
    // different each time
    return (result_type)(::sim::mix(hpx::sim::random_seed, 1) + ++random_device_count * 0x9E3779B1u);
}

namespace hpx::sim {

    void (*on_here)(std::uint32_t locality) = nullptr;
    std::uint64_t live_components, parcels, parcel_bytes, tasks, switches, decisions, max_runnable;
    std::uint64_t delayed_parcels, random_picks, stalled_picks, preemptions;

    struct Fiber
    {
        ucontext_t ctx{};
        int stack = -1;
        std::uint32_t locality = 0;
        Work work;
        bool started = false;
        bool finished = false;
        __cxxabiv1::__cxa_eh_globals eh{};
        int inline_depth = 0;
        int in_sut = 0;
        std::uint64_t id = 0;
    };

    namespace {

        constexpr std::size_t stack_size = 256 * 1024;
        constexpr int max_stacks = 8192;
        char* stacks = nullptr;
        std::vector<int> free_stacks;
        int nr_stacks = 0;

        struct Parcel
        {
            std::uint32_t from, to;
            std::uint64_t due;
            Work deliver;
        };
        struct Runtime
        {
            std::uint32_t nr = 1;
            std::vector<ObjectPtr> localities;
            std::deque<Fiber*> runnable;
            std::deque<Parcel> parcels;
            std::uint64_t now = 0;             // scheduling steps
            std::uint64_t next_id = 1;
            std::uint32_t next_timer = 0;
            std::map<std::string, hpx::detail::state_ptr<hpx::id_type>> names;
            std::vector<std::uint64_t> stalled;   // until step, per locality
        };
        Runtime* rt = nullptr;
        std::uint32_t here_ = 0;
        // memory each locality, being a process, has its own copy of
        struct Private { char* begin; std::vector<char> pristine; std::vector<std::vector<char>> images; };
        std::vector<Private> private_;
        void set_here(std::uint32_t l)
        {
            if (l == here_) return;
            for (auto& p : private_)
            {
                p.images.resize(std::max({p.images.size(), std::size_t(l) + 1, std::size_t(here_) + 1}), p.pristine);
                std::memcpy(p.images[here_].data(), p.begin, p.pristine.size());
                std::memcpy(p.begin, p.images[l].data(), p.pristine.size());
            }
            here_ = l;
            if (on_here) on_here(l);
        }
        Fiber* current_ = nullptr;
        ucontext_t main_ctx;
        __cxxabiv1::__cxa_eh_globals main_eh;
        int main_inline_depth, main_in_sut;
        bool failed = false;
        std::string failed_cls, failed_text;
        std::uint64_t order_hash = 0;
        Fiber main_marker;

        int get_stack()
        {
            if (!stacks)
            {
                void* base = reinterpret_cast<void*>(0x5200'0000'0000ull);
                void* p = mmap(base, stack_size * max_stacks, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
                if (p != base) { std::perror("fiber stacks"); std::abort(); }
                stacks = static_cast<char*>(p);
            }
            if (!free_stacks.empty())
            {
                int s = free_stacks.back();
                free_stacks.pop_back();
                return s;
            }
            if (nr_stacks == max_stacks) hpx::sim::fail("too-many-threads", "more than 8192 suspended lightweight threads");
            // a guard page below each stack
            mprotect(stacks + std::size_t(nr_stacks) * stack_size, 4096, PROT_NONE);
            return nr_stacks++;
        }

        void entry(unsigned lo, unsigned hi)
        {
            auto* f = reinterpret_cast<Fiber*>((std::uint64_t(hi) << 32) | lo);
            try { f->work(); f->work = {}; }
            catch (::sim::Violation const& v)
            {
                if (!failed) { failed = true; failed_cls = v.cls; failed_text = v.what(); }
            }
            catch (std::exception const& e)
            {
                if (!failed) { failed = true; failed_cls = "unhandled"; failed_text = std::string("an exception leaves a lightweight thread: ") + e.what(); }
            }
            f->finished = true;
            setcontext(&main_ctx);
        }

        auto* eh() { return reinterpret_cast<__cxxabiv1::__cxa_eh_globals*>(abi::__cxa_get_globals()); }

        void run_fiber(Fiber* f)
        {
            std::uint32_t const prev = here_;
            main_eh = *eh();
            main_inline_depth = hpx::detail::inline_depth;
            main_in_sut = ::sim::in_sut;
            set_here(f->locality);
            current_ = f;
            *eh() = f->eh;
            hpx::detail::inline_depth = f->inline_depth;
            ::sim::in_sut = f->in_sut;
            ++switches;
            if (!f->started)
            {
                f->started = true;
                f->stack = get_stack();
                getcontext(&f->ctx);
                f->ctx.uc_stack.ss_sp = stacks + std::size_t(f->stack) * stack_size + 4096;
                f->ctx.uc_stack.ss_size = stack_size - 4096;
                f->ctx.uc_link = nullptr;
                auto p = reinterpret_cast<std::uint64_t>(f);
                makecontext(&f->ctx, reinterpret_cast<void (*)()>(&entry), 2, unsigned(p), unsigned(p >> 32));
            }
            swapcontext(&main_ctx, &f->ctx);
            current_ = nullptr;
            set_here(prev);
            if (!f->finished)
            {
                f->eh = *eh();
                f->inline_depth = hpx::detail::inline_depth;
                f->in_sut = ::sim::in_sut;
            }
            *eh() = main_eh;
            hpx::detail::inline_depth = main_inline_depth;
            ::sim::in_sut = main_in_sut;
            if (f->finished)
            {
                free_stacks.push_back(f->stack);
                delete f;
            }
            if (failed)
            {
                auto c = failed_cls, t = failed_text;
                ::sim::violate(c, t);
            }
        }

        void to_scheduler()
        {
            // leave the current fiber
            Fiber* f = current_;
            swapcontext(&f->ctx, &main_ctx);
        }

        bool deliver_due()
        {
            bool any = false;
            for (std::size_t i = 0; i < rt->parcels.size();)
            {
                // parcels between a pair of localities do not overtake each other
                bool blocked = rt->parcels[i].due > rt->now;
                for (std::size_t j = 0; j < i && !blocked; ++j)
                    blocked = rt->parcels[j].from == rt->parcels[i].from && rt->parcels[j].to == rt->parcels[i].to;
                if (blocked) { ++i; continue; }
                Parcel p = std::move(rt->parcels[i]);
                rt->parcels.erase(rt->parcels.begin() + (std::ptrdiff_t)i);
                any = true;
                {
                    At at{p.to};
                    p.deliver();
                }
            }
            return any;
        }
    }  // namespace

    void process_private(char* begin, char* end)
    {
        private_.push_back({begin, std::vector<char>(begin, end), {}});
    }
    At::At(std::uint32_t l): prev{here_} { set_here(l); }
    At::~At() { set_here(prev); }

    Object::~Object()
    {
        if (ptr && destroy)
        {
            At at{locality};
            --live_components;
            void* p = ptr;
            ptr = nullptr;
            destroy(p);
        }
    }

    void fail(char const* cls, std::string const& what)
    {
        if (!failed) { failed = true; failed_cls = cls; failed_text = what; }
        if (current_)
        {
            to_scheduler();
            std::abort();
        }
        ::sim::violate(failed_cls, failed_text);
    }

    void start(std::uint32_t nr)
    {
        if (nr == 0 || nr > 16) nr = 1;
        rt = new Runtime();
        rt->nr = nr;
        rt->stalled.assign(nr, 0);
        for (std::uint32_t i = 0; i < nr; ++i)
        {
            auto o = std::make_shared<Object>();
            o->locality = i;
            o->is_locality = true;
            rt->localities.push_back(o);
        }
        set_here(0);
        live_components = 0;
        random_device_count = 0;
    }
    std::uint32_t nr_localities() { return rt->nr; }
    std::uint32_t here() { return here_; }
    ObjectPtr const& locality_object(std::uint32_t l) { return rt->localities.at(l); }
    Fiber* current() { return current_; }

    void spawn(std::uint32_t locality, Work work)
    {
        auto* f = new Fiber();
        f->locality = locality;
        f->work = std::move(work);
        f->id = rt->next_id++;
        ++tasks;
        rt->runnable.push_back(f);
        if (tasks > 400000) fail("no-progress", "more than 400000 lightweight threads in one run");
    }

    void send(std::uint32_t to, Work deliver)
    {
        ++parcels;
        std::uint32_t kind = 0, arg = 0, seq = 0;
        std::uint64_t delay = 1;
        if (::sim::decision_event(::sim::fc_msg, (std::uint64_t(here_) << 8) | to, kind, arg, seq))
        {
            delay = 1 + ::sim::mix(arg, seq) % 60;
            ++delayed_parcels;
        }
        rt->parcels.push_back({here_, to, rt->now + delay, std::move(deliver)});
    }

    void after(std::uint64_t steps, Work work)
    {
        // does not wait for parcels
        std::uint32_t const id = 1000 + rt->next_timer++;
        rt->parcels.push_back({id, here_, rt->now + steps, std::move(work)});
    }

    void resume(Fiber* f)
    {
        if (f == &main_marker) return;
        rt->runnable.push_back(f);
    }

    bool step()
    {
        ++rt->now;
        bool const any = deliver_due();
        if (rt->runnable.empty())
        {
            if (any) return true;
            if (rt->parcels.empty()) return false;
            // nothing to do but wait for the next parcel
            std::uint64_t next = ~0ull;
            for (auto const& p : rt->parcels) next = std::min(next, p.due);
            rt->now = std::max(rt->now, next);
            deliver_due();
            return true;
        }
        std::size_t pick = 0;
        std::size_t const n = rt->runnable.size();
        max_runnable = std::max<std::uint64_t>(max_runnable, n);
        if (n > 1)
        {
            ++decisions;
            std::uint32_t kind = 0, arg = 0, seq = 0;
            if (::sim::decision_event(::sim::fc_sched, n, kind, arg, seq))
            {
                if (kind == ::sim::fk_pick)
                {
                    ++random_picks;
                    std::uint64_t h = ::sim::mix(arg, seq);
                    pick = (h & 7) == 0 ? n - 1 : h / 8 % n;
                }
                else if (kind == ::sim::fk_last)
                {
                    ++random_picks;
                    pick = n - 1;
                }
                else if (kind == ::sim::fk_slow)
                {
                    // this locality does not get to run anything
                    std::uint32_t l = arg % rt->nr;
                    for (std::size_t i = 0; i < n; ++i)
                        if (rt->runnable[i]->locality != l) { pick = i; ++stalled_picks; break; }
                }
            }
        }
        Fiber* f = rt->runnable[pick];
        rt->runnable.erase(rt->runnable.begin() + (std::ptrdiff_t)pick);
        if (n > 1) { order_hash = ::sim::mix(order_hash, f->id); ::sim::log_event(f->id); if (pick != 0) ::sim::state(order_hash); }
        run_fiber(f);
        return true;
    }

    void suspend(std::vector<Fiber*>& waiters, bool const& done)
    {
        if (current_)
        {
            while (!done)
            {
                waiters.push_back(current_);
                to_scheduler();
            }
            return;
        }
        while (!done)
        {
            if (!step())
                fail("stuck", "waiting for something that cannot happen anymore: no lightweight thread can run and no parcel is underway");
        }
    }

    void yield()
    {
        std::uint32_t kind = 0, arg = 0, seq = 0;
        if (!rt || failed) return;
        if (rt->runnable.empty() && rt->parcels.empty()) return;
        if (!::sim::decision_event(::sim::fc_yield, rt->runnable.size(), kind, arg, seq)) return;
        // not without end: every suspended thread keeps a stack
        if (nr_stacks - (int)free_stacks.size() > 1024) return;
        ++preemptions;
        if (current_)
        {
            rt->runnable.push_back(current_);
            to_scheduler();
        }
        else if (std::uncaught_exceptions() == 0)
        {
            std::uint64_t k = 1 + ::sim::mix(arg, seq) % 20;
            for (std::uint64_t i = 0; i < k; ++i)
                if (!step()) break;
        }
    }

    void drain()
    {
        while (step()) {}
    }

    bool stop()
    {
        drain();
        rt->names.clear();
        drain();
        return live_components == 0;
    }

    hpx::detail::state_ptr<hpx::id_type>& name_slot(std::string const& name)
    {
        auto& s = rt->names[name];
        if (!s) s = std::make_shared<hpx::detail::state<hpx::id_type>>();
        return s;
    }
    void forget_name(std::string const& name) { rt->names.erase(name); }
    std::size_t nr_names() { return rt->names.size(); }

    // wait until somebody sets the flag
    void wait_flag(std::vector<bool*>& flags, std::vector<Fiber*>& waiters)
    {
        bool done = false;
        flags.push_back(&done);
        std::vector<Fiber*>& w = waiters;
        if (current_)
        {
            w.push_back(current_);
            while (!done) to_scheduler();
        }
        else
        {
            w.push_back(&main_marker);
            suspend(w, done);
        }
    }
    void wake_all(std::vector<bool*>& flags, std::vector<Fiber*>& waiters)
    {
        auto fs = std::move(flags);
        auto ws = std::move(waiters);
        flags.clear();
        waiters.clear();
        for (auto* f : fs) *f = true;
        for (auto* w : ws) resume(w);
    }
    void wake_one(std::vector<bool*>& flags, std::vector<Fiber*>& waiters)
    {
        if (flags.empty()) return;
        *flags.front() = true;
        flags.erase(flags.begin());
        auto* w = waiters.front();
        waiters.erase(waiters.begin());
        resume(w);
    }
}  // namespace hpx::sim

namespace hpx {
    void mutex::wait() { sim::wait_flag(_flags, _waiters); }
    void mutex::wake() { sim::wake_all(_flags, _waiters); }
    void shared_mutex::wait() { sim::wait_flag(_flags, _waiters); }
    void shared_mutex::wake() { sim::wake_all(_flags, _waiters); }
    void condition_variable_any::block() { sim::wait_flag(_flags, _waiters); }
    void condition_variable_any::notify_one() { sim::wake_one(_flags, _waiters); }
    void condition_variable_any::notify_all() { sim::wake_all(_flags, _waiters); }
    void sliding_semaphore::block() { sim::wait_flag(_flags, _waiters); }
    std::set<void const*> sim::live_semaphores;
    void sliding_semaphore::signal(std::int64_t lower)
    {
        if (!sim::live_semaphores.count(this)) sim::fail("semaphore", "signalling a semaphore which does not exist anymore");
        _lower = std::max(lower, _lower);
        sim::wake_all(_flags, _waiters);
        sim::yield();
    }
    namespace detail {
        Locked::Locked(sim::Object* o_): o{o_}
        {
            if (!o) return;
            sim::yield();
            while (o->locked) sim::wait_flag(o->flags, o->waiters);
            o->locked = true;
        }
        Locked::~Locked()
        {
            if (!o) return;
            o->locked = false;
            sim::wake_all(o->flags, o->waiters);
        }
    }
}
