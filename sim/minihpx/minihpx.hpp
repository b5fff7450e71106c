// A deterministic, single-threaded stand-in for the part of HPX that LUE's modelling framework uses.
//
// Several localities are simulated in one process. Lightweight threads are fibers. A scheduler driven by the
// trace decides which runnable fiber continues, how long a parcel is underway and which locality is stalled.
// Calls to another locality pass through a byte archive, like parcels do.
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <ranges>
#include <set>
#include <shared_mutex>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace hpx::sim {

    using Work = std::move_only_function<void()>;
    struct Fiber;

    // ------------------------------------------------------------------ scheduler (runtime.cpp)
    void start(std::uint32_t nr_localities);         // new simulation
    void drain();                                    // run until nothing can run
    bool stop();                                     // drain, drop the runtime's own state
    std::uint32_t nr_localities();
    std::uint32_t here();                            // current locality
    void spawn(std::uint32_t locality, Work work);   // new lightweight thread
    void send(std::uint32_t to, Work deliver);       // parcel, ordered per pair of localities
    void process_private(char* begin, char* end);    // memory each locality, being a process, has its own copy of
    extern void (*on_here)(std::uint32_t locality);  // called when another locality gets to run
    void after(std::uint64_t steps, Work work);      // something from outside happens later
    void yield();                                    // the scheduler may run something else
    extern std::uint64_t random_seed;                // of std::random_device
    Fiber* current();                                // nullptr: the main thread
    void suspend(std::vector<Fiber*>& waiters, bool const& done);   // returns once done
    void resume(Fiber* fiber);
    bool step();                                     // main thread only: run one thing, false if there is nothing
    [[noreturn]] void fail(char const* cls, std::string const& what);
    struct At                                        // act as another locality
    {
        std::uint32_t prev;
        explicit At(std::uint32_t locality);
        ~At();
    };
    extern std::uint64_t live_components, parcels, parcel_bytes, tasks, switches, decisions, max_runnable;
    extern std::uint64_t delayed_parcels, random_picks, stalled_picks, preemptions;

    // ------------------------------------------------------------------ objects with a global address
    struct Object
    {
        std::uint32_t locality = 0;
        bool is_locality = false;
        void* ptr = nullptr;
        void (*destroy)(void*) = nullptr;
        bool locked = false;                         // locking_hook
        std::vector<bool*> flags;
        std::vector<Fiber*> waiters;
        ~Object();
    };
    using ObjectPtr = std::shared_ptr<Object>;
    ObjectPtr const& locality_object(std::uint32_t locality);

    struct Names
    {
        std::any client;                             // shared_ptr<state<id_type>>
    };

}  // namespace hpx::sim

#define HPX_ASSERT(expr) ((expr) ? void() : ::hpx::sim::fail("assertion", std::string("assertion failed: ") + #expr + " at " + (__builtin_strrchr(__FILE__, '/') ? __builtin_strrchr(__FILE__, '/') + 1 : __FILE__)))
#define HPX_UNUSED(x) (void)(x)
#define HPX_PP_CAT_I(a, b) a##b
#define HPX_PP_CAT(a, b) HPX_PP_CAT_I(a, b)
#define HPX_EXPORT

namespace hpx {

    enum class error { success, invalid_status, future_cancelled, bad_parameter };
    struct exception: std::runtime_error { using std::runtime_error::runtime_error; };

    namespace launch_detail {
        struct async_policy {};
        struct sync_policy {};
        struct fork_policy {};
        struct apply_policy {};
        struct deferred_policy {};
    }
    struct launch
    {
        using async_policy = launch_detail::async_policy;
        using sync_policy = launch_detail::sync_policy;
        using fork_policy = launch_detail::fork_policy;
        using apply_policy = launch_detail::apply_policy;
        using deferred_policy = launch_detail::deferred_policy;
        static constexpr async_policy async{};
        static constexpr sync_policy sync{};
        static constexpr fork_policy fork{};
        static constexpr apply_policy apply{};
        static constexpr deferred_policy deferred{};
    };
    template<typename T>
    inline constexpr bool is_launch_policy = std::is_same_v<std::decay_t<T>, launch::async_policy> ||
        std::is_same_v<std::decay_t<T>, launch::sync_policy> || std::is_same_v<std::decay_t<T>, launch::fork_policy> ||
        std::is_same_v<std::decay_t<T>, launch::apply_policy> || std::is_same_v<std::decay_t<T>, launch::deferred_policy>;
    template<typename T>
    inline constexpr bool is_sync_policy = std::is_same_v<std::decay_t<T>, launch::sync_policy>;

    // ------------------------------------------------------------------ ids
    struct id_type
    {
        sim::ObjectPtr object;
        explicit operator bool() const { return bool(object); }
        bool operator==(id_type const& o) const { return object == o.object; }
        bool operator!=(id_type const& o) const { return object != o.object; }
        bool operator<(id_type const& o) const { return object.owner_before(o.object); }
        std::uint32_t locality() const { return object->locality; }
    };
    inline id_type const invalid_id{};
    inline std::ostream& operator<<(std::ostream& s, id_type const& i) { return i ? s << "{" << i.object->locality << "}" : s << "{}"; }
    namespace naming { using hpx::id_type; }

    // ------------------------------------------------------------------ futures
    template<typename T> class future;
    template<typename T> class shared_future;
    template<typename T> class promise;
    namespace components {
        template<typename Derived, typename Server> class client_base;
    }

    namespace detail {

        struct state_base
        {
            bool ready = false;
            std::exception_ptr error;
            std::vector<sim::Work> continuations;
            std::vector<sim::Fiber*> waiters;
            // the function whose result this is, with everything it captured, exists as long as this state does
            std::shared_ptr<void> frame;
            void wait()
            {
                if (!ready) sim::suspend(waiters, ready);
            }
            void on_ready(sim::Work w)
            {
                if (ready) w();
                else continuations.push_back(std::move(w));
            }
            void set_ready()
            {
                ready = true;
                auto ws = std::move(waiters);
                waiters.clear();
                for (auto* w : ws) sim::resume(w);
                auto cs = std::move(continuations);
                continuations.clear();
                for (auto& c : cs) c();
            }
            void set_error(std::exception_ptr e)
            {
                error = std::move(e);
                set_ready();
            }
        };
        using state_base_ptr = std::shared_ptr<state_base>;

        struct unit {};
        template<typename T> using stored_t = std::conditional_t<std::is_void_v<T>, unit, T>;
        template<typename T>
        struct state: state_base
        {
            std::optional<stored_t<T>> value;
            template<typename U>
            void set_value(U&& u)
            {
                value.emplace(std::forward<U>(u));
                set_ready();
            }
        };
        template<typename T> using state_ptr = std::shared_ptr<state<T>>;

        struct access
        {
            template<typename F> static auto const& state_of(F const& f) { return f._state; }
            template<typename F> static auto& state_of(F& f) { return f._state; }
        };

        template<typename T> struct is_future_: std::false_type {};
        template<typename T> struct is_future_<future<T>>: std::true_type { using type = T; };
        template<typename T> struct is_future_<shared_future<T>>: std::true_type { using type = T; };
        template<typename D, typename S> std::true_type client_test(components::client_base<D, S> const*);
        std::false_type client_test(...);
        template<typename T, typename = void> struct is_complete: std::false_type {};
        template<typename T> struct is_complete<T, std::void_t<decltype(sizeof(T))>>: std::true_type {};
    }  // namespace detail

    template<typename T>
    inline constexpr bool is_client_v = decltype(detail::client_test(std::declval<std::remove_cvref_t<T>*>()))::value;
    template<typename T>
    inline constexpr bool is_future_v = detail::is_future_<std::remove_cvref_t<T>>::value;
    namespace traits {
        template<typename T> inline constexpr bool is_future_v = hpx::is_future_v<T>;
        template<typename T> struct is_future: std::bool_constant<hpx::is_future_v<T>> {};
        template<typename T> struct future_traits { using type = typename detail::is_future_<std::remove_cvref_t<T>>::type; using result_type = type; };
    }

    namespace detail {

        // The value type a future to an R ends up holding
        template<typename R> struct unwrap_result { using type = R; };
        template<typename R> struct unwrap_result<future<R>>: unwrap_result<R> {};
        template<typename R> struct unwrap_result<shared_future<R>>: unwrap_result<R> {};
        template<typename R> using unwrap_result_t = typename unwrap_result<R>::type;
        // An action which returns a unique future results in what that one holds
        template<typename R> struct unwrap_action { using type = R; };
        template<typename R> struct unwrap_action<future<R>>: unwrap_action<R> {};
        template<typename R> using unwrap_action_t = typename unwrap_action<R>::type;

        template<typename T>
        void forward_state(std::shared_ptr<state<T>> const& from, std::shared_ptr<state<T>> const& to, bool shared);

        // Set the state given the result of calling f
        template<typename T, typename F, typename... A>
        void fulfil(std::shared_ptr<state<T>> const& st, F&& f, A&&... a)
        {
            using R = std::invoke_result_t<F, A...>;
            try
            {
                if constexpr (std::is_void_v<R>)
                {
                    std::invoke(std::forward<F>(f), std::forward<A>(a)...);
                    st->set_value(unit{});
                }
                else if constexpr (is_future_v<R> && !std::is_same_v<std::remove_cvref_t<R>, T>)
                {
                    auto inner = std::invoke(std::forward<F>(f), std::forward<A>(a)...);
                    chain(st, std::move(inner));
                }
                else
                {
                    if constexpr (std::is_void_v<T>)
                    {
                        std::invoke(std::forward<F>(f), std::forward<A>(a)...);
                        st->set_value(unit{});
                    }
                    else
                        st->set_value(std::invoke(std::forward<F>(f), std::forward<A>(a)...));
                }
            }
            catch (...)
            {
                if (st->ready) throw;
                st->set_error(std::current_exception());
            }
        }
        // Once inner is ready, hand its value to st
        template<typename T, typename Inner>
        void chain(std::shared_ptr<state<T>> st, Inner&& inner)
        {
            auto in = access::state_of(inner);
            if (!in)
            {
                st->set_error(std::make_exception_ptr(hpx::exception("invalid future")));
                return;
            }
            in->on_ready(
                [st = std::move(st), in, inner = std::remove_cvref_t<Inner>(std::forward<Inner>(inner))]() mutable
                {
                    if (in->error)
                    {
                        st->set_error(in->error);
                        return;
                    }
                    using V = typename is_future_<std::remove_cvref_t<Inner>>::type;
                    if constexpr (std::is_void_v<T>) st->set_value(unit{});
                    else if constexpr (is_future_v<V> && !std::is_same_v<V, T>)
                        chain(std::move(st), std::move(*in->value));
                    else if constexpr (std::is_same_v<std::remove_cvref_t<Inner>, shared_future<V>>)
                        st->set_value(*in->value);
                    else st->set_value(std::move(*in->value));
                });
        }

        template<typename F>
        void launch_with(std::uint32_t locality, bool inline_, F&& f)
        {
            if (inline_) f();
            else sim::spawn(locality, sim::Work(std::forward<F>(f)));
        }
        template<typename F>
        struct Frame
        {
            std::optional<F> f;
            std::uint32_t locality = sim::here();
            explicit Frame(F&& f): f{std::move(f)} {}
            explicit Frame(F const& f): f{f} {}
            ~Frame()
            {
                sim::At at{locality};
                f.reset();
            }
        };
        // a future returned by the function is unwrapped into another state, which does not hold the function
        template<typename R, typename T, typename F>
        auto make_frame(std::shared_ptr<state<T>> const& st, F&& f)
        {
            auto fr = std::make_shared<Frame<std::decay_t<F>>>(std::forward<F>(f));
            if constexpr (!is_future_v<R>) st->frame = fr;
            return fr;
        }
        extern int inline_depth;
        struct InlineDepth { InlineDepth() { ++inline_depth; } ~InlineDepth() { --inline_depth; } };

        template<typename Fut, typename F>
        auto then_impl(Fut fut, bool inline_, F&& f)
        {
            using R = std::invoke_result_t<std::decay_t<F>, Fut>;
            using T = unwrap_result_t<std::remove_cvref_t<R>>;
            auto st = std::make_shared<state<T>>();
            auto in = access::state_of(fut);
            if (!in) throw hpx::exception("then: invalid future");
            std::uint32_t const locality = sim::here();
            auto* raw = in.get();
            auto fr = make_frame<R>(st, std::forward<F>(f));
            raw->on_ready(
                [st, fut = std::move(fut), fr = std::move(fr), inline_, locality]() mutable
                {
                    auto run = [st = std::move(st), fut = std::move(fut), fr = std::move(fr)]() mutable
                    { fulfil(st, std::move(*fr->f), std::move(fut)); };
                    if (inline_ && inline_depth < 8)
                    {
                        InlineDepth d;
                        sim::At at{locality};
                        run();
                    }
                    else sim::spawn(locality, sim::Work(std::move(run)));
                });
            return future<T>(st);
        }
    }  // namespace detail

    template<typename T>
    class future
    {
        public:
            using result_type = T;
            using value_type = T;
            future() = default;
            explicit future(detail::state_ptr<T> st): _state{std::move(st)} {}
            future(future const&) = delete;
            future(future&&) noexcept = default;
            future& operator=(future const&) = delete;
            future& operator=(future&&) noexcept = default;
            future(future<future<T>>&& o) { unwrap(std::move(o)); }
            future(future<shared_future<T>>&& o) { unwrap(std::move(o)); }
            template<typename U>
                requires(std::is_void_v<T> && !std::is_void_v<U> && !is_future_v<U>)
            future(future<U>&& o)
            {
                // the value is not of interest anymore, but keeps existing
                _state = std::make_shared<detail::state<T>>();
                _state->frame = detail::access::state_of(o);
                detail::chain(_state, std::move(o));
            }
            bool valid() const { return bool(_state); }
            bool is_ready() const { return _state && _state->ready; }
            bool has_value() const { return is_ready() && !_state->error; }
            bool has_exception() const { return is_ready() && _state->error; }
            std::exception_ptr get_exception_ptr() const { wait(); return _state->error; }
            void wait() const
            {
                if (!_state) throw hpx::exception("wait: invalid future");
                _state->wait();
            }
            T get()
            {
                wait();
                auto st = std::move(_state);
                _state.reset();
                if (st->error) std::rethrow_exception(st->error);
                if constexpr (!std::is_void_v<T>) return std::move(*st->value);
            }
            shared_future<T> share() { return shared_future<T>(std::move(*this)); }
            template<typename F> auto then(F&& f) { return detail::then_impl(std::move(*this), false, std::forward<F>(f)); }
            template<typename P, typename F>
            auto then(P, F&& f) { return detail::then_impl(std::move(*this), is_sync_policy<P>, std::forward<F>(f)); }

        private:
            friend detail::access;
            template<typename O>
            void unwrap(O&& o)
            {
                _state = std::make_shared<detail::state<T>>();
                detail::chain(_state, std::move(o));
            }
            detail::state_ptr<T> _state;
    };

    template<typename T>
    class shared_future
    {
        public:
            using result_type = T;
            using value_type = T;
            shared_future() = default;
            explicit shared_future(detail::state_ptr<T> st): _state{std::move(st)} {}
            shared_future(future<T>&& f): _state{std::move(detail::access::state_of(f))} {}
            shared_future(future<shared_future<T>>&& o)
            {
                _state = std::make_shared<detail::state<T>>();
                detail::chain(_state, std::move(o));
            }
            template<typename U>
                requires(std::is_void_v<T> && !std::is_void_v<U> && !is_future_v<U>)
            shared_future(shared_future<U> o)
            {
                _state = std::make_shared<detail::state<T>>();
                _state->frame = detail::access::state_of(o);
                detail::chain(_state, std::move(o));
            }
            shared_future(future<future<T>>&& o): shared_future(future<T>(std::move(o))) {}
            shared_future(shared_future const&) = default;
            shared_future(shared_future&&) noexcept = default;
            shared_future& operator=(shared_future const&) = default;
            shared_future& operator=(shared_future&&) noexcept = default;
            bool valid() const { return bool(_state); }
            bool is_ready() const { return _state && _state->ready; }
            bool has_value() const { return is_ready() && !_state->error; }
            bool has_exception() const { return is_ready() && _state->error; }
            std::exception_ptr get_exception_ptr() const { wait(); return _state->error; }
            void wait() const
            {
                if (!_state) throw hpx::exception("wait: invalid future");
                _state->wait();
            }
            std::conditional_t<std::is_void_v<T>, void, std::add_lvalue_reference_t<std::add_const_t<T>>> get() const
            {
                wait();
                if (_state->error) std::rethrow_exception(_state->error);
                if constexpr (!std::is_void_v<T>) return *_state->value;
            }
            template<typename F> auto then(F&& f) const { return detail::then_impl(shared_future(*this), false, std::forward<F>(f)); }
            template<typename P, typename F>
            auto then(P, F&& f) const { return detail::then_impl(shared_future(*this), is_sync_policy<P>, std::forward<F>(f)); }

        private:
            friend detail::access;
            detail::state_ptr<T> _state;
    };

    template<typename T>
    class promise
    {
        public:
            promise(): _state{std::make_shared<detail::state<T>>()} {}
            promise(promise&&) noexcept = default;
            promise& operator=(promise&&) noexcept = default;
            promise(promise const&) = delete;
            ~promise()
            {
                if (_state && !_state->ready)
                    _state->set_error(std::make_exception_ptr(hpx::exception("broken promise")));
            }
            future<T> get_future()
            {
                if (!_state) throw hpx::exception("promise without a state (moved from)");
                if (_got) throw hpx::exception("future already retrieved");
                _got = true;
                return future<T>(_state);
            }
            shared_future<T> get_shared_future() { return shared_future<T>(_state); }
            void set_value()
                requires std::is_void_v<T>
            {
                check();
                _state->set_value(detail::unit{});
            }
            template<typename U>
                requires(!std::is_void_v<T>)
            void set_value(U&& u)
            {
                check();
                _state->set_value(std::forward<U>(u));
            }
            void set_exception(std::exception_ptr e) { check(); _state->set_error(std::move(e)); }

        private:
            void check() const
            {
                if (!_state) throw hpx::exception("promise without state");
                if (_state->ready) throw hpx::exception("promise already satisfied");
            }
            bool _got = false;
            detail::state_ptr<T> _state;
    };

    template<typename T>
    future<std::decay_t<T>> make_ready_future(T&& t)
    {
        auto st = std::make_shared<detail::state<std::decay_t<T>>>();
        st->value.emplace(std::forward<T>(t));
        st->ready = true;
        return future<std::decay_t<T>>(st);
    }
    template<typename T, typename... A>
        requires(sizeof...(A) != 1 || !std::is_same_v<T, std::decay_t<std::tuple_element_t<0, std::tuple<A...>>>>)
    future<T> make_ready_future(A&&... a)
    {
        auto st = std::make_shared<detail::state<T>>();
        st->value.emplace(std::forward<A>(a)...);
        st->ready = true;
        return future<T>(st);
    }
    template<typename T>
    future<T> make_ready_future(T const& t)
    {
        auto st = std::make_shared<detail::state<T>>();
        st->value.emplace(t);
        st->ready = true;
        return future<T>(st);
    }
    template<typename T = void>
        requires std::is_void_v<T>
    future<T> make_ready_future()
    {
        auto st = std::make_shared<detail::state<void>>();
        st->value.emplace();
        st->ready = true;
        return future<void>(st);
    }
    template<typename T>
    future<T> make_exceptional_future(std::exception_ptr e)
    {
        auto st = std::make_shared<detail::state<T>>();
        st->error = std::move(e);
        st->ready = true;
        return future<T>(st);
    }

    // ------------------------------------------------------------------ clients
    namespace components {

        template<typename Derived, typename Server>
        class client_base
        {
            public:
                using server_component_type = Server;
                using is_client_tag = void;
                client_base() = default;
                explicit client_base(id_type const& id): _state{std::make_shared<detail::state<id_type>>()}
                {
                    _state->value.emplace(id);
                    _state->ready = true;
                }
                explicit client_base(id_type&& id): _state{std::make_shared<detail::state<id_type>>()}
                {
                    _state->value.emplace(std::move(id));
                    _state->ready = true;
                }
                explicit client_base(future<id_type>&& f): _state{std::move(detail::access::state_of(f))} {}
                explicit client_base(shared_future<id_type> const& f): _state{detail::access::state_of(f)} {}
                client_base(future<Derived>&& f): _state{std::make_shared<detail::state<id_type>>()}
                {
                    auto in = detail::access::state_of(f);
                    if (!in) { _state.reset(); return; }
                    in->on_ready(
                        [st = _state, in]() mutable
                        {
                            if (in->error) { st->set_error(in->error); return; }
                            auto inner = detail::access::state_of(*in->value);
                            in->value.reset();
                            if (!inner) { st->set_value(id_type{}); return; }
                            auto* raw = inner.get();
                            raw->on_ready(
                                [st, inner]()
                                {
                                    if (inner->error) st->set_error(inner->error);
                                    else st->set_value(*inner->value);
                                });
                        });
                }
                client_base(client_base const&) = default;
                client_base(client_base&&) noexcept = default;
                client_base& operator=(client_base const&) = default;
                client_base& operator=(client_base&&) noexcept = default;
                explicit operator bool() const { return valid(); }
                bool valid() const { return bool(_state); }
                bool is_ready() const { return _state && _state->ready; }
                bool has_exception() const { return is_ready() && _state->error; }
                bool has_value() const { return is_ready() && !_state->error; }
                void wait() const
                {
                    if (!_state) throw hpx::exception("wait: invalid client");
                    _state->wait();
                }
                id_type const& get_id() const { return get(); }
                id_type const& get() const
                {
                    wait();
                    if (_state->error) std::rethrow_exception(_state->error);
                    return *_state->value;
                }
                void reset() { _state.reset(); }
                void free() { _state.reset(); }
                std::exception_ptr get_exception_ptr() const { wait(); return _state->error; }
                shared_future<id_type> share() const { return shared_future<id_type>(_state); }
                template<typename F>
                auto then(F&& f) const { return detail::then_impl(Derived(static_cast<Derived const&>(*this)), false, std::forward<F>(f)); }
                template<typename P, typename F>
                auto then(P, F&& f) const { return detail::then_impl(Derived(static_cast<Derived const&>(*this)), is_sync_policy<P>, std::forward<F>(f)); }
                future<bool> register_as(std::string const& name, bool manage = true);

            private:
                friend detail::access;

            protected:
                detail::state_ptr<id_type> _state;
        };
    }  // namespace components

    // ------------------------------------------------------------------ waiting for several things
    namespace detail {

        template<typename T> concept range_of_things = requires(T& t) { std::begin(t); std::end(t); typename std::remove_cvref_t<T>::value_type; };
        template<typename T> concept tuple_like_ = requires { std::tuple_size<std::remove_cvref_t<T>>::value; };

        template<typename T> constexpr bool holds_futures();
        template<typename Tup, std::size_t... I>
        constexpr bool tuple_holds(std::index_sequence<I...>)
        {
            return (holds_futures<std::remove_cvref_t<std::tuple_element_t<I, Tup>>>() || ...);
        }
        template<typename T> struct is_std_tuple: std::false_type {};
        template<typename... T> struct is_std_tuple<std::tuple<T...>>: std::true_type {};
        template<typename A, typename B> struct is_std_tuple<std::pair<A, B>>: std::true_type {};
        template<typename T>
        constexpr bool holds_futures()
        {
            using U = std::remove_cvref_t<T>;
            if constexpr (std::is_scalar_v<U> || std::is_same_v<U, std::string>) return false;
            else if constexpr (is_future_v<U> || is_client_v<U>) return true;
            else if constexpr (is_std_tuple<U>::value)
                return tuple_holds<U>(std::make_index_sequence<std::tuple_size_v<U>>{});
            else if constexpr (range_of_things<U>)
            {
                using V = typename U::value_type;
                if constexpr (std::is_same_v<V, U>) return false;
                else return holds_futures<V>();
            }
            else return false;
        }
        template<typename T>
        void collect(T const& t, std::vector<state_base_ptr>& deps)
        {
            using U = std::remove_cvref_t<T>;
            if constexpr (!holds_futures<U>()) {}
            else if constexpr (is_future_v<U> || is_client_v<U>)
            {
                auto const& st = access::state_of(t);
                if (st && !st->ready) deps.push_back(st);
            }
            else if constexpr (is_std_tuple<U>::value) std::apply([&](auto const&... e) { (collect(e, deps), ...); }, t);
            else for (auto const& e : t) collect(e, deps);
        }
        struct Join
        {
            std::size_t left;
            sim::Work work;
        };
        inline void when_ready(std::vector<state_base_ptr> const& deps, sim::Work work)
        {
            if (deps.empty()) { work(); return; }
            auto j = std::make_shared<Join>(deps.size(), std::move(work));
            for (auto const& d : deps)
                d->on_ready([j]() { if (--j->left == 0) { auto w = std::move(j->work); w(); } });
        }
        template<typename T>
        auto acquire(T&& t)
        {
            using U = std::remove_cvref_t<T>;
            if constexpr (std::is_same_v<U, future<typename is_future_<U>::type>>) return U(std::move(const_cast<U&>(t)));
            else return U(std::forward<T>(t));
        }
        template<typename T> struct is_unique_future: std::false_type {};
        template<typename T> struct is_unique_future<future<T>>: std::true_type {};
        template<typename T>
        std::remove_cvref_t<T> take(T&& t)
        {
            using U = std::remove_cvref_t<T>;
            if constexpr (is_unique_future<U>::value) return U(std::move(const_cast<U&>(t)));
            else return U(std::forward<T>(t));
        }
        template<typename V>
        future<V> ready_with(V value)
        {
            std::vector<state_base_ptr> deps;
            collect(value, deps);
            auto st = std::make_shared<state<V>>();
            auto v = std::make_shared<V>(std::move(value));
            when_ready(deps, [st, v]() { st->set_value(std::move(*v)); });
            return future<V>(st);
        }
    }  // namespace detail

    template<typename... T> using tuple = std::tuple<T...>;
    using std::get;
    using std::make_tuple;
    using std::tie;
    using std::forward_as_tuple;
    template<typename T> using tuple_size = std::tuple_size<T>;
    template<std::size_t I, typename T> using tuple_element = std::tuple_element<I, T>;

    template<typename It>
        requires requires(It i) { *i; ++i; typename std::iterator_traits<It>::iterator_category; }
    auto when_all(It b, It e)
    {
        using V = typename std::iterator_traits<It>::value_type;
        std::vector<V> v;
        for (; b != e; ++b) v.push_back(detail::take(*b));
        return detail::ready_with(std::move(v));
    }
    template<typename It>
    auto when_all_n(It b, std::size_t n)
    {
        using V = typename std::iterator_traits<It>::value_type;
        std::vector<V> v;
        for (std::size_t i = 0; i < n; ++i, ++b) v.push_back(detail::take(*b));
        return detail::ready_with(std::move(v));
    }
    namespace detail {
        template<typename T> inline constexpr bool future_range = !is_future_v<T> && !is_client_v<T> && range_of_things<std::remove_cvref_t<T>>;
        template<typename T> struct take_whole { using type = std::remove_cvref_t<T>; };
    }
    template<typename R>
        requires detail::future_range<R>
    auto when_all(R&& r)
    {
        using U = std::remove_cvref_t<R>;
        if constexpr (std::is_copy_constructible_v<typename U::value_type> && !std::is_rvalue_reference_v<R&&>)
            return detail::ready_with(U(r));
        else
            return detail::ready_with(U(std::move(const_cast<U&>(r))));
    }
    template<typename... F>
        requires((... && (is_future_v<F> || is_client_v<F> || detail::future_range<F>)) && (sizeof...(F) != 1 || (... && !detail::future_range<F>))) || (sizeof...(F) > 2)
    auto when_all(F&&... f)
    {
        return detail::ready_with(std::tuple<std::remove_cvref_t<F>...>(detail::take(std::forward<F>(f))...));
    }

    template<typename Seq>
    struct when_any_result
    {
        std::size_t index = std::size_t(-1);
        Seq futures;
    };
    namespace detail {
        template<typename Seq>
        future<when_any_result<Seq>> any_of(Seq seq)
        {
            using R = when_any_result<Seq>;
            auto st = std::make_shared<state<R>>();
            auto holder = std::make_shared<R>(R{std::size_t(-1), std::move(seq)});
            std::vector<state_base_ptr> states;
            for (auto& f : holder->futures) states.push_back(access::state_of(f));
            if (states.empty()) { st->set_value(std::move(*holder)); return future<R>(st); }
            auto done = std::make_shared<bool>(false);
            for (std::size_t i = 0; i < states.size(); ++i)
            {
                if (*done) break;
                if (!states[i]) continue;
                states[i]->on_ready(
                    [st, holder, done, i]()
                    {
                        if (*done) return;
                        *done = true;
                        holder->index = i;
                        st->set_value(std::move(*holder));
                    });
            }
            return future<R>(st);
        }
    }
    template<typename R>
        requires detail::future_range<R>
    auto when_any(R&& r)
    {
        using U = std::remove_cvref_t<R>;
        std::vector<typename U::value_type> v;
        for (auto& f : r) v.push_back(detail::take(f));
        return detail::any_of(std::move(v));
    }
    template<typename It>
        requires requires(It i) { *i; ++i; typename std::iterator_traits<It>::iterator_category; }
    auto when_any(It b, It e)
    {
        using V = typename std::iterator_traits<It>::value_type;
        std::vector<V> v;
        for (; b != e; ++b) v.push_back(detail::take(*b));
        return detail::any_of(std::move(v));
    }

    namespace detail {
        template<typename T>
        void wait_one(T const& t)
        {
            std::vector<state_base_ptr> deps;
            collect(t, deps);
            for (auto& d : deps) d->wait();
        }
        template<typename T>
        void rethrow_one(T const& t)
        {
            using U = std::remove_cvref_t<T>;
            if constexpr (!holds_futures<U>()) {}
            else if constexpr (is_future_v<U> || is_client_v<U>)
            {
                auto const& st = access::state_of(t);
                if (st && st->error) std::rethrow_exception(st->error);
            }
            else if constexpr (is_std_tuple<U>::value) std::apply([&](auto const&... e) { (rethrow_one(e), ...); }, t);
            else for (auto const& e : t) rethrow_one(e);
        }
    }
    template<typename It>
        requires requires(It i) { *i; ++i; typename std::iterator_traits<It>::iterator_category; }
    void wait_all(It b, It e)
    {
        for (It i = b; i != e; ++i) detail::wait_one(*i);
        for (It i = b; i != e; ++i) detail::rethrow_one(*i);
    }
    template<typename... F>
        requires(... && detail::holds_futures<std::remove_cvref_t<F>>())
    void wait_all(F&&... f)
    {
        (detail::wait_one(f), ...);
        (detail::rethrow_one(f), ...);
    }

    // ------------------------------------------------------------------ split_future
    namespace detail {
        template<typename Tup, std::size_t... I>
        auto split_tuple(std::shared_ptr<state<Tup>> in, std::index_sequence<I...>)
        {
            auto states = std::make_tuple(std::make_shared<state<std::tuple_element_t<I, Tup>>>()...);
            auto* raw = in.get();
            raw->on_ready(
                [in, states]()
                {
                    if (in->error) (std::get<I>(states)->set_error(in->error), ...);
                    else (std::get<I>(states)->set_value(std::move(std::get<I>(*in->value))), ...);
                });
            return std::tuple<future<std::tuple_element_t<I, Tup>>...>(future<std::tuple_element_t<I, Tup>>(std::get<I>(states))...);
        }
    }
    template<typename... T>
    std::tuple<future<T>...> split_future(future<std::tuple<T...>>&& f)
    {
        return detail::split_tuple<std::tuple<T...>>(detail::access::state_of(f), std::index_sequence_for<T...>{});
    }
    template<typename A, typename B>
    std::pair<future<A>, future<B>> split_future(future<std::pair<A, B>>&& f)
    {
        auto in = detail::access::state_of(f);
        auto a = std::make_shared<detail::state<A>>();
        auto b = std::make_shared<detail::state<B>>();
        auto* raw = in.get();
        raw->on_ready(
            [in, a, b]()
            {
                if (in->error) { a->set_error(in->error); b->set_error(in->error); return; }
                a->set_value(std::move(in->value->first));
                b->set_value(std::move(in->value->second));
            });
        return {future<A>(a), future<B>(b)};
    }
    template<typename T>
    std::vector<future<T>> split_future(future<std::vector<T>>&& f, std::size_t n)
    {
        auto in = detail::access::state_of(f);
        std::vector<std::shared_ptr<detail::state<T>>> states;
        std::vector<future<T>> result;
        for (std::size_t i = 0; i < n; ++i)
        {
            states.push_back(std::make_shared<detail::state<T>>());
            result.emplace_back(states.back());
        }
        auto* raw = in.get();
        raw->on_ready(
            [in, states]()
            {
                for (std::size_t i = 0; i < states.size(); ++i)
                    if (in->error) states[i]->set_error(in->error);
                    else if (i >= in->value->size()) states[i]->set_error(std::make_exception_ptr(std::out_of_range("split_future")));
                    else states[i]->set_value(std::move((*in->value)[i]));
            });
        return result;
    }

    // ------------------------------------------------------------------ unwrapping
    namespace detail {

        template<typename A>
        auto unwrap_arg(A&& a);

        // the pack of values an argument stands for, as a tuple (empty for futures to void)
        template<typename A>
        auto unwrap_arg(A&& a)
        {
            using U = std::remove_cvref_t<A>;
            if constexpr (is_client_v<U>) return std::tuple<id_type>(a.get());
            else if constexpr (is_future_v<U>)
            {
                using T = typename is_future_<U>::type;
                if constexpr (std::is_void_v<T>)
                {
                    const_cast<U&>(a).get();
                    return std::tuple<>();
                }
                else if constexpr (is_unique_future<U>::value) return std::tuple<T>(const_cast<U&>(a).get());
                else return std::tuple<T const&>(a.get());
            }
            else if constexpr (holds_futures<U>() && is_std_tuple<U>::value)
            {
                auto inner = std::apply([](auto&... e) { return std::tuple_cat(unwrap_arg(e)...); }, const_cast<U&>(a));
                return std::tuple<decltype(inner)>(std::move(inner));
            }
            else if constexpr (holds_futures<U>())
            {
                using V = typename U::value_type;
                using P = decltype(unwrap_arg(std::declval<V&>()));
                if constexpr (std::tuple_size_v<P> == 0)
                {
                    for (auto& e : const_cast<U&>(a)) unwrap_arg(e);
                    return std::tuple<>();
                }
                else
                {
                    using E = std::remove_cvref_t<std::tuple_element_t<0, P>>;
                    if constexpr (requires { std::tuple_size<U>::value; })
                    {
                        std::array<E, std::tuple_size<U>::value> r{};
                        std::size_t i = 0;
                        for (auto& e : const_cast<U&>(a)) r[i++] = std::get<0>(unwrap_arg(e));
                        return std::tuple<decltype(r)>(std::move(r));
                    }
                    else
                    {
                        std::vector<E> r;
                        for (auto& e : const_cast<U&>(a)) r.push_back(std::get<0>(unwrap_arg(e)));
                        return std::tuple<std::vector<E>>(std::move(r));
                    }
                }
            }
            else return std::tuple<A&&>(std::forward<A>(a));
        }

        template<typename F>
        struct unwrapper
        {
            F f;
            template<typename... A>
            auto operator()(A&&... a) -> decltype(auto)
            {
                auto args = std::tuple_cat(unwrap_arg(std::forward<A>(a))...);
                return std::apply([this](auto&&... v) -> decltype(auto) { return std::invoke(f, std::forward<decltype(v)>(v)...); }, std::move(args));
            }
        };
    }  // namespace detail
    template<typename F>
    auto unwrapping(F&& f)
    {
        return detail::unwrapper<std::decay_t<F>>{std::forward<F>(f)};
    }

    // ------------------------------------------------------------------ serialisation
    namespace serialization {

        class input_archive;
        class output_archive;

        struct Buffer
        {
            std::vector<std::byte> bytes;
            std::vector<sim::ObjectPtr> objects;
        };

        class access
        {
            public:
                template<typename Ar, typename T>
                static constexpr bool has_member()
                {
                    return requires(Ar& ar, T& t) { t.serialize(ar, 0u); };
                }
                template<typename Ar, typename T>
                static void member(Ar& ar, T& t) { t.serialize(ar, 0u); }
                template<typename T> static T make() { return T{}; }
        };

        template<typename T>
        struct array_ref
        {
            T* data;
            std::size_t size;
        };
        template<typename T>
        array_ref<T> make_array(T* data, std::size_t size) { return {data, size}; }

        template<typename Ar, typename T> void process(Ar& ar, T& t);

        class output_archive
        {
            public:
                explicit output_archive(Buffer& b): _buffer{b} {}
                void raw(void const* p, std::size_t n)
                {
                    if (n == 0) return;
                    auto at = _buffer.bytes.size();
                    _buffer.bytes.resize(at + n);
                    std::memcpy(_buffer.bytes.data() + at, p, n);
                }
                void object(sim::ObjectPtr const& o)
                {
                    std::uint8_t has = o ? 1 : 0;
                    raw(&has, 1);
                    if (o) _buffer.objects.push_back(o);
                }
                template<typename T> output_archive& operator&(T const& t) { process(*this, const_cast<T&>(t)); return *this; }
                template<typename T> output_archive& operator<<(T const& t) { return *this & t; }
                static constexpr bool saving = true;

            private:
                Buffer& _buffer;
        };
        class input_archive
        {
            public:
                explicit input_archive(Buffer& b): _buffer{b} {}
                void raw(void* p, std::size_t n)
                {
                    if (n == 0) return;
                    if (_at + n > _buffer.bytes.size()) sim::fail("serialization", "a parcel holds less than what is read from it");
                    std::memcpy(p, _buffer.bytes.data() + _at, n);
                    _at += n;
                }
                sim::ObjectPtr object()
                {
                    std::uint8_t has = 0;
                    raw(&has, 1);
                    if (!has) return nullptr;
                    if (_obj >= _buffer.objects.size()) sim::fail("serialization", "a parcel holds less than what is read from it");
                    return _buffer.objects[_obj++];
                }
                bool done() const { return _at == _buffer.bytes.size() && _obj == _buffer.objects.size(); }
                template<typename T> input_archive& operator&(T& t) { process(*this, t); return *this; }
                template<typename T> input_archive& operator&(array_ref<T>&& t) { process(*this, t); return *this; }
                template<typename T> input_archive& operator>>(T& t) { return *this & t; }
                static constexpr bool saving = false;

            private:
                Buffer& _buffer;
                std::size_t _at = 0, _obj = 0;
        };

        template<typename T> struct is_array_ref: std::false_type {};
        template<typename T> struct is_array_ref<array_ref<T>>: std::true_type {};
        template<typename T> struct is_optional: std::false_type {};
        template<typename T> struct is_optional<std::optional<T>>: std::true_type {};
        template<typename T> struct is_unique: std::false_type {};
        template<typename T> struct is_unique<std::unique_ptr<T>>: std::true_type {};
        template<typename T> struct is_shared_ptr: std::false_type {};
        template<typename T> struct is_shared_ptr<std::shared_ptr<T>>: std::true_type {};
        template<typename T> struct is_std_array: std::false_type {};
        template<typename T, std::size_t n> struct is_std_array<std::array<T, n>>: std::true_type {};
        template<typename T> struct is_duration: std::false_type {};
        template<typename R, typename P> struct is_duration<std::chrono::duration<R, P>>: std::true_type {};

        template<typename Ar, typename T>
        void process(Ar& ar, T& t)
        {
            constexpr bool saving = Ar::saving;
            if constexpr (is_array_ref<T>::value)
            {
                using E = std::remove_const_t<std::remove_pointer_t<decltype(t.data)>>;
                if constexpr (std::is_arithmetic_v<E> || std::is_enum_v<E>) ar.raw(const_cast<E*>(t.data), sizeof(E) * t.size);
                else for (std::size_t i = 0; i < t.size; ++i) process(ar, const_cast<E&>(t.data[i]));
            }
            else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) ar.raw(&t, sizeof(T));
            else if constexpr (std::is_same_v<T, id_type>)
            {
                if constexpr (saving) ar.object(t.object);
                else t.object = ar.object();
            }
            else if constexpr (is_client_v<T>)
            {
                bool valid = t.valid();
                ar & valid;
                if constexpr (saving) { if (valid) { id_type id = t.get_id(); ar & id; } }
                else if (valid) { id_type id; ar & id; t = T(id); }
                else t = T();
            }
            else if constexpr (is_future_v<T>)
            {
                using V = typename detail::is_future_<T>::type;
                bool valid = t.valid();
                ar & valid;
                if (!valid) { if constexpr (!saving) t = T(); return; }
                auto& st = detail::access::state_of(t);
                std::string error;
                if constexpr (saving)
                {
                    st->wait();
                    if (st->error)
                    {
                        try { std::rethrow_exception(st->error); }
                        catch (std::exception const& e) { error = e.what(); if (error.empty()) error = "error"; }
                        catch (...) { error = "unknown"; }
                    }
                }
                ar & error;
                if constexpr (saving)
                {
                    if (error.empty()) if constexpr (!std::is_void_v<V>) ar & *st->value;
                }
                else
                {
                    auto n = std::make_shared<detail::state<V>>();
                    if (!error.empty()) n->error = std::make_exception_ptr(std::runtime_error(error));
                    else if constexpr (std::is_void_v<V>) n->value.emplace();
                    else { n->value.emplace(); ar & *n->value; }
                    n->ready = true;
                    t = T(n);
                }
            }
            else if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::wstring>)
            {
                std::uint64_t n = t.size();
                ar & n;
                if constexpr (!saving) t.resize(n);
                ar.raw(t.data(), n * sizeof(typename T::value_type));
            }
            else if constexpr (is_std_array<T>::value) { for (auto& e : t) process(ar, e); }
            else if constexpr (detail::is_std_tuple<T>::value) std::apply([&](auto&... e) { (process(ar, const_cast<std::remove_const_t<std::remove_reference_t<decltype(e)>>&>(e)), ...); }, t);
            else if constexpr (is_optional<T>::value)
            {
                bool has = t.has_value();
                ar & has;
                if constexpr (!saving) { if (has) t.emplace(); else t.reset(); }
                if (has) process(ar, *t);
            }
            else if constexpr (is_unique<T>::value || is_shared_ptr<T>::value)
            {
                bool has = bool(t);
                ar & has;
                using E = std::remove_const_t<typename T::element_type>;
                if constexpr (!saving) { if (has) t.reset(new E()); else t.reset(); }
                if (has) process(ar, const_cast<E&>(*t));
            }
            else if constexpr (is_duration<T>::value)
            {
                auto c = t.count();
                ar & c;
                if constexpr (!saving) t = T(c);
            }
            else if constexpr (access::has_member<Ar, T>()) access::member(ar, t);
            else if constexpr (requires { serialize(ar, t, 0u); }) serialize(ar, t, 0u);
            else if constexpr (requires { typename T::mapped_type; typename T::key_type; })
            {
                std::uint64_t n = t.size();
                ar & n;
                if constexpr (saving)
                {
                    // in the order of the container itself
                    for (auto& [k, v] : t) { ar & k; ar & v; }
                }
                else
                {
                    t.clear();
                    for (std::uint64_t i = 0; i < n; ++i)
                    {
                        typename T::key_type k{};
                        typename T::mapped_type v{};
                        ar & k;
                        ar & v;
                        t.emplace(std::move(k), std::move(v));
                    }
                }
            }
            else if constexpr (requires { typename T::key_type; t.clear(); })
            {
                std::uint64_t n = t.size();
                ar & n;
                if constexpr (saving) { for (auto& k : t) ar & k; }
                else
                {
                    t.clear();
                    for (std::uint64_t i = 0; i < n; ++i)
                    {
                        typename T::key_type k{};
                        ar & k;
                        t.insert(std::move(k));
                    }
                }
            }
            else if constexpr (requires { typename T::value_type; t.resize(1); t.begin(); })
            {
                std::uint64_t n = t.size();
                ar & n;
                if constexpr (!saving) t.resize(n);
                if constexpr (std::is_same_v<T, std::vector<bool>>)
                {
                    for (std::uint64_t i = 0; i < n; ++i) { bool b = saving ? bool(t[i]) : false; ar & b; t[i] = b; }
                }
                else for (auto& e : t) process(ar, e);
            }
            else if constexpr (std::is_empty_v<T>) {}
            else if constexpr (std::is_trivially_copyable_v<T> && !std::is_pointer_v<T>) ar.raw(&t, sizeof(T));
            else static_assert(std::is_void_v<Ar>, "no serialize function");
        }
        // explicit operator form used by serialize functions: serialize(archive, object, version)
        template<typename T> void serialize(output_archive& ar, array_ref<T> const& t, unsigned) { process(ar, const_cast<array_ref<T>&>(t)); }

        template<typename T>
        Buffer pack(T& t)
        {
            Buffer b;
            output_archive ar{b};
            ar & t;
            sim::parcel_bytes += b.bytes.size();
            return b;
        }
        template<typename T>
        void unpack(Buffer& b, T& t)
        {
            input_archive ar{b};
            ar & t;
            if (!ar.done()) sim::fail("serialization", "a parcel holds more than what is read from it");
        }
    }  // namespace serialization

    // ------------------------------------------------------------------ localities
    inline id_type find_here() { return id_type{sim::locality_object(sim::here())}; }
    inline id_type find_root_locality() { return id_type{sim::locality_object(0)}; }
    inline std::vector<id_type> find_all_localities()
    {
        std::vector<id_type> r;
        for (std::uint32_t i = 0; i < sim::nr_localities(); ++i) r.push_back(id_type{sim::locality_object(i)});
        return r;
    }
    inline std::vector<id_type> find_remote_localities()
    {
        std::vector<id_type> r;
        for (std::uint32_t i = 0; i < sim::nr_localities(); ++i) if (i != sim::here()) r.push_back(id_type{sim::locality_object(i)});
        return r;
    }
    inline std::uint32_t get_locality_id() { return sim::here(); }
    namespace naming { inline std::uint32_t get_locality_id_from_id(id_type const& id) { return id.object->locality; } }
    namespace naming_detail {}
    inline std::uint32_t get_num_localities(launch::sync_policy) { return sim::nr_localities(); }
    inline std::uint32_t get_initial_num_localities() { return sim::nr_localities(); }
    inline id_type get_colocation_id(launch::sync_policy, id_type const& id)
    {
        if (!id) throw hpx::exception("get_colocation_id: invalid id");
        return id_type{sim::locality_object(id.object->locality)};
    }
    namespace detail {
        template<typename R, typename F> future<R> remote_query(std::uint32_t locality, F f);
    }
    inline future<id_type> get_colocation_id(id_type const& id);
    struct colocated_target { id_type id; };
    inline colocated_target colocated(id_type const& id) { return {id}; }
    template<typename D, typename S> colocated_target colocated(components::client_base<D, S> const& c) { return {c.get_id()}; }
    namespace agas { inline void garbage_collect() {} }
    namespace this_thread {
        inline void yield() { sim::yield(); }
        template<typename D> void sleep_for(D const&) { sim::yield(); }
        inline void suspend() { sim::yield(); }
    }

    // ------------------------------------------------------------------ calling things
    namespace detail {

        // Run f at a locality with args, reply with its result. Args are packed when they have to travel.
        template<typename R, typename Call, typename Args>
        future<R> call_at(std::uint32_t to, bool inline_if_local, Call call, Args args)
        {
            auto st = std::make_shared<state<R>>();
            std::uint32_t const from = sim::here();
            if (to == from)
            {
                auto run = [st, call = std::move(call), args = std::move(args)]() mutable
                { fulfil(st, [&]() -> decltype(auto) { return call(args); }); };
                if (inline_if_local) run();
                else sim::spawn(to, sim::Work(std::move(run)));
                return future<R>(st);
            }
            // futures have to be ready before they can travel
            std::vector<state_base_ptr> deps;
            collect(args, deps);
            when_ready(
                deps,
                [st, from, to, call = std::move(call), args = std::move(args)]() mutable
                {
                    sim::At at{from};
                    serialization::Buffer parcel;
                    try { parcel = serialization::pack(args); }
                    catch (...) { st->set_error(std::current_exception()); return; }
                    sim::send(
                        to,
                        [st, from, to, call = std::move(call), parcel = std::move(parcel)]() mutable
                        {
                            sim::spawn(
                                to,
                                [st, from, to, call = std::move(call), parcel = std::move(parcel)]() mutable
                                {
                                    auto reply = std::make_shared<state<R>>();
                                    fulfil(
                                        reply,
                                        [&]() -> decltype(auto)
                                        {
                                            Args there{};
                                            serialization::unpack(parcel, there);
                                            return call(there);
                                        });
                                    auto send_back = [st, from, to, reply]() mutable
                                    {
                                        sim::At at{to};
                                        auto ex = reply->error;
                                        serialization::Buffer back;
                                        if (!ex)
                                        {
                                            try
                                            {
                                                if constexpr (!std::is_void_v<R>) back = serialization::pack(*reply->value);
                                            }
                                            catch (...) { ex = std::current_exception(); }
                                        }
                                        reply.reset();
                                        sim::send(
                                            from,
                                            [st, ex, back = std::move(back)]() mutable
                                            {
                                                if (ex) { st->set_error(ex); return; }
                                                if constexpr (std::is_void_v<R>) st->set_value(unit{});
                                                else
                                                {
                                                    stored_t<R> r{};
                                                    serialization::unpack(back, r);
                                                    st->set_value(std::move(r));
                                                }
                                            });
                                    };
                                    auto* raw = reply.get();
                                    raw->on_ready(
                                        [reply, send_back = std::move(send_back)]() mutable
                                        {
                                            std::vector<state_base_ptr> deps;
                                            if (!reply->error) collect(*reply->value, deps);
                                            reply.reset();
                                            when_ready(deps, std::move(send_back));
                                        });
                                });
                        });
                });
            return future<R>(st);
        }
        template<typename R, typename F>
        future<R> remote_query(std::uint32_t locality, F f)
        {
            return call_at<R>(locality, true, [f = std::move(f)](std::tuple<>&) mutable { return f(); }, std::tuple<>());
        }

        template<typename T>
        std::uint32_t target_locality(T const& t)
        {
            if constexpr (std::is_same_v<T, id_type>)
            {
                if (!t) throw hpx::exception("action on an invalid id");
                return t.object->locality;
            }
            else if constexpr (std::is_same_v<T, colocated_target>) return target_locality(t.id);
            else return target_locality(t.get_id());
        }
        struct Locked
        {
            sim::Object* o;
            explicit Locked(sim::Object* o_);
            ~Locked();
            Locked(Locked const&) = delete;
        };
    }  // namespace detail

    inline future<id_type> get_colocation_id(id_type const& id)
    {
        if (!id) throw hpx::exception("get_colocation_id: invalid id");
        auto l = id.object->locality;
        return detail::remote_query<id_type>(l, [l]() { return id_type{sim::locality_object(l)}; });
    }

    namespace actions {

        struct action_tag {};

        template<typename Signature, Signature f, typename Derived>
        struct basic_action;

        template<typename R, typename... P, R (*f)(P...), typename Derived>
        struct basic_action<R (*)(P...), f, Derived>: action_tag
        {
            using result_type = detail::unwrap_action_t<std::remove_cvref_t<R>>;
            using arguments = std::tuple<std::remove_cvref_t<P>...>;
            template<typename Target, typename... A>
            static future<result_type> start(bool inline_, Target const& target, A&&... a)
            {
                return detail::call_at<result_type>(
                    detail::target_locality(target),
                    inline_,
                    [](arguments& args) -> R { return std::apply([](auto&... v) -> R { return f(static_cast<P>(pass<P>(v))...); }, args); },
                    arguments(std::forward<A>(a)...));
            }
            template<typename P_, typename V>
            static decltype(auto) pass(V& v)
            {
                if constexpr (std::is_lvalue_reference_v<P_>) return (v);
                else return std::move(v);
            }
            template<typename Target, typename... A>
            auto operator()(Target const& target, A&&... a) const { return start(true, target, std::forward<A>(a)...).get(); }
            template<typename Target, typename... A>
            auto operator()(launch::sync_policy, Target const& target, A&&... a) const { return start(true, target, std::forward<A>(a)...).get(); }
        };
        template<typename R, typename... P, R (*f)(P...) noexcept, typename Derived>
        struct basic_action<R (*)(P...) noexcept, f, Derived>: basic_action<R (*)(P...), static_cast<R (*)(P...)>(f), Derived> {};

        template<typename C> concept wants_lock = requires { typename C::locking_hook_tag; };

        template<typename C, typename R, auto f, typename Derived, typename... P>
        struct member_action: action_tag
        {
            using result_type = detail::unwrap_action_t<std::remove_cvref_t<R>>;
            using arguments = std::tuple<std::remove_cvref_t<P>...>;
            using free_ = basic_action<R (*)(P...), static_cast<R (*)(P...)>(nullptr), Derived>;
            template<typename P_, typename V>
            static decltype(auto) pass(V& v)
            {
                if constexpr (std::is_lvalue_reference_v<P_>) return (v);
                else return std::move(v);
            }
            template<typename Target, typename... A>
            static future<result_type> start(bool inline_, Target const& target, A&&... a)
            {
                id_type id;
                if constexpr (std::is_same_v<Target, id_type>) id = target;
                else id = target.get_id();
                std::uint32_t const locality = detail::target_locality(id);
                if (id.object->is_locality) throw hpx::exception("component action on a locality");
                return detail::call_at<result_type>(
                    locality,
                    inline_,
                    [id](arguments& args) -> R
                    {
                        sim::Object* o = id.object.get();
                        if (o->ptr == nullptr) throw hpx::exception("component is gone");
                        detail::Locked lock{wants_lock<C> ? o : nullptr};
                        auto* c = static_cast<C*>(o->ptr);
                        return std::apply([c](auto&... v) -> R { return (c->*f)(static_cast<P>(pass<P>(v))...); }, args);
                    },
                    arguments(std::forward<A>(a)...));
            }
            template<typename Target, typename... A>
            auto operator()(Target const& target, A&&... a) const { return start(true, target, std::forward<A>(a)...).get(); }
            template<typename Target, typename... A>
            auto operator()(launch::sync_policy, Target const& target, A&&... a) const { return start(true, target, std::forward<A>(a)...).get(); }
        };
        template<typename R, typename C, typename... P, R (C::*f)(P...), typename Derived>
        struct basic_action<R (C::*)(P...), f, Derived>: member_action<C, R, f, Derived, P...> {};
        template<typename R, typename C, typename... P, R (C::*f)(P...) const, typename Derived>
        struct basic_action<R (C::*)(P...) const, f, Derived>: member_action<C, R, f, Derived, P...> {};

        template<typename Signature, Signature f, typename Derived = void>
        struct make_action
        {
            using type = basic_action<Signature, f, Derived>;
        };
    }  // namespace actions
    template<typename T> inline constexpr bool is_action_v = std::is_base_of_v<actions::action_tag, std::decay_t<T>>;

    template<typename Action> using make_action_t = typename Action::type;

    namespace detail {
        template<typename T, typename F, typename... A>
        void spawn_call(std::shared_ptr<state<T>> st, bool inline_, F&& f, A&&... a)
        {
            auto run = [st = std::move(st), f = std::decay_t<F>(std::forward<F>(f)), args = std::tuple<std::decay_t<A>...>(std::forward<A>(a)...)]() mutable
            {
                fulfil(
                    st,
                    [&]() -> decltype(auto)
                    { return std::apply([&](auto&... v) -> decltype(auto) { return std::invoke(std::move(f), std::move(v)...); }, args); });
            };
            if (inline_) run();
            else sim::spawn(sim::here(), sim::Work(std::move(run)));
        }
    }
    template<typename F, typename... A>
        requires(!is_launch_policy<F>)
    auto async(F&& f, A&&... a)
    {
        if constexpr (is_action_v<F>) return std::decay_t<F>::start(false, std::forward<A>(a)...);
        else
        {
            using R = std::remove_cvref_t<std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>>;
            auto st = std::make_shared<detail::state<R>>();
            detail::spawn_call(st, false, std::forward<F>(f), std::forward<A>(a)...);
            return future<R>(st);
        }
    }
    template<typename P, typename F, typename... A>
        requires(is_launch_policy<P>)
    auto async(P, F&& f, A&&... a)
    {
        if constexpr (is_action_v<F>) return std::decay_t<F>::start(is_sync_policy<P>, std::forward<A>(a)...);
        else
        {
            using R = std::remove_cvref_t<std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>>;
            auto st = std::make_shared<detail::state<R>>();
            detail::spawn_call(st, is_sync_policy<P>, std::forward<F>(f), std::forward<A>(a)...);
            return future<R>(st);
        }
    }
    template<typename Action, typename... A>
        requires(is_action_v<Action>)
    auto async(A&&... a)
    {
        return Action::start(false, std::forward<A>(a)...);
    }
    template<typename F, typename... A>
    void post(F&& f, A&&... a)
    {
        (void)async(std::forward<F>(f), std::forward<A>(a)...);
    }

    namespace detail {
        template<typename F, typename... A>
        auto dataflow_impl(bool inline_, F&& f, A&&... a)
        {
            using Fd = std::decay_t<F>;
            if constexpr (is_action_v<Fd>)
            {
                return dataflow_impl(
                    inline_, unwrapper<std::function<void()>>{}, std::forward<A>(a)...);   // not used by LUE
            }
            else
            {
                using R = std::remove_cvref_t<std::invoke_result_t<Fd, std::remove_cvref_t<A>...>>;
                using T = unwrap_result_t<R>;
                auto st = std::make_shared<state<T>>();
                auto args = std::tuple<std::remove_cvref_t<A>...>(take(std::forward<A>(a))...);
                std::vector<state_base_ptr> deps;
                collect(args, deps);
                std::uint32_t const locality = sim::here();
                auto fr = make_frame<R>(st, std::forward<F>(f));
                when_ready(
                    deps,
                    [st, inline_, locality, fr = std::move(fr), args = std::move(args)]() mutable
                    {
                        auto run = [st = std::move(st), fr = std::move(fr), args = std::move(args)]() mutable
                        {
                            fulfil(
                                st,
                                [&]() -> decltype(auto)
                                { return std::apply([&](auto&... v) -> decltype(auto) { return std::invoke(std::move(*fr->f), std::move(v)...); }, args); });
                        };
                        if (inline_ && inline_depth < 8)
                        {
                            InlineDepth d;
                            sim::At at{locality};
                            run();
                        }
                        else sim::spawn(locality, sim::Work(std::move(run)));
                    });
                return future<T>(st);
            }
        }
    }
    template<typename F, typename... A>
        requires(!is_launch_policy<F>)
    auto dataflow(F&& f, A&&... a)
    {
        return detail::dataflow_impl(false, std::forward<F>(f), std::forward<A>(a)...);
    }
    template<typename P, typename F, typename... A>
        requires(is_launch_policy<P>)
    auto dataflow(P, F&& f, A&&... a)
    {
        return detail::dataflow_impl(is_sync_policy<P>, std::forward<F>(f), std::forward<A>(a)...);
    }

    template<typename F> std::decay_t<F> annotated_function(F&& f, char const* = nullptr) { return std::forward<F>(f); }
    template<typename F> std::decay_t<F> annotated_function(F&& f, std::string const&) { return std::forward<F>(f); }
    struct scoped_annotation
    {
        template<typename... A> explicit scoped_annotation(A&&...) {}
        ~scoped_annotation() {}
    };
    template<typename F, typename... A> auto bind_front(F&& f, A&&... a) { return std::bind_front(std::forward<F>(f), std::forward<A>(a)...); }
    template<typename F, typename... A> decltype(auto) invoke(F&& f, A&&... a) { return std::invoke(std::forward<F>(f), std::forward<A>(a)...); }

    // ------------------------------------------------------------------ components
    namespace components {

        template<typename Derived>
        class component_base
        {
            public:
                using component_base_tag = void;
                id_type get_id() const
                {
                    auto o = _object.lock();
                    if (!o) throw hpx::exception("component without id");
                    return id_type{o};
                }
                id_type get_unmanaged_id() const { return get_id(); }
                std::weak_ptr<sim::Object> _object;
                component_base() = default;
                component_base(component_base const&) {}
                component_base(component_base&&) noexcept {}
                component_base& operator=(component_base const&) { return *this; }
                component_base& operator=(component_base&&) noexcept { return *this; }
                void finalize() {}
        };
        template<typename Base>
        class locking_hook: public Base
        {
            public:
                using locking_hook_tag = void;
                using Base::Base;
                locking_hook() = default;
                locking_hook(locking_hook const&) = default;
                locking_hook(locking_hook&&) = default;
        };
        template<typename Base>
        class migration_support: public Base
        {
            public:
                using Base::Base;
                migration_support() = default;
        };
        template<typename Base>
        class abstract_component_base: public component_base<Base> {};
        template<typename Server> struct component { using type = Server; };
    }  // namespace components

    namespace detail {
        template<typename Server, typename... A>
        id_type create(A&&... a)
        {
            auto o = std::make_shared<sim::Object>();
            o->locality = sim::here();
            auto* s = new Server(std::forward<A>(a)...);
            s->_object = o;
            o->ptr = s;
            o->destroy = [](void* p) { delete static_cast<Server*>(p); };
            ++sim::live_components;
            return id_type{o};
        }
        template<typename T> struct server_of { using type = T; };
        template<typename T>
            requires is_client_v<T>
        struct server_of<T> { using type = typename T::server_component_type; };
    }
    template<typename T, typename Target, typename... A>
    auto new_(Target const& target, A&&... a)
    {
        using Server = typename detail::server_of<T>::type;
        using Args = std::tuple<std::decay_t<A>...>;
        auto f = detail::call_at<id_type>(
            detail::target_locality(target),
            true,
            [](Args& args) -> id_type { return std::apply([](auto&... v) { return detail::create<Server>(std::move(v)...); }, args); },
            Args(std::forward<A>(a)...));
        if constexpr (is_client_v<T>) return T(std::move(f));
        else return f;
    }
    template<typename Server>
    std::shared_ptr<Server> get_ptr_(id_type const& id)
    {
        if (!id || id.object->is_locality) throw hpx::exception("get_ptr: invalid id");
        if (id.object->locality != sim::here()) throw hpx::exception("get_ptr: the component is at another locality");
        return std::shared_ptr<Server>(id.object, static_cast<Server*>(id.object->ptr));
    }
    template<typename D, typename S>
    std::shared_ptr<S> get_ptr(launch::sync_policy, components::client_base<D, S> const& c) { return get_ptr_<S>(c.get_id()); }
    template<typename S>
    std::shared_ptr<S> get_ptr(launch::sync_policy, id_type const& id) { return get_ptr_<S>(id); }
    template<typename S>
    future<std::shared_ptr<S>> get_ptr(id_type const& id) { return make_ready_future(get_ptr_<S>(id)); }

#define HPX_DEFINE_COMPONENT_ACTION(Component, f, Name)                                                                 \
    struct Name: ::hpx::actions::make_action<decltype(&Component::f), &Component::f, Name>::type                        \
    {                                                                                                                   \
    };
#define HPX_DEFINE_COMPONENT_DIRECT_ACTION HPX_DEFINE_COMPONENT_ACTION
#define HPX_REGISTER_ACTION_DECLARATION(...)
#define HPX_REGISTER_ACTION(...) static_assert(true)
#define HPX_REGISTER_COMPONENT(...) static_assert(true)
#define HPX_REGISTER_COMPONENT_MODULE()
#define HPX_REGISTER_CHANNEL(...) static_assert(true)
#define HPX_REGISTER_CHANNEL_DECLARATION(...)
#define HPX_PLAIN_ACTION(f, Name)                                                                                       \
    struct Name: ::hpx::actions::make_action<decltype(&f), &f, Name>::type                                              \
    {                                                                                                                   \
    };

    // ------------------------------------------------------------------ synchronisation
    class mutex
    {
        public:
            mutex() = default;
            explicit mutex(char const*) {}
            mutex(mutex const&) = delete;
            void lock()
            {
                sim::yield();
                while (_locked) wait();
                _locked = true;
            }
            bool try_lock()
            {
                if (_locked) return false;
                _locked = true;
                return true;
            }
            void unlock()
            {
                if (!_locked) sim::fail("mutex", "unlocking a mutex which is not locked");
                _locked = false;
                wake();
                if (sim::current()) sim::yield();
            }

        private:
            void wait();
            void wake();
            bool _locked = false;
            std::vector<sim::Fiber*> _waiters;
            std::vector<bool*> _flags;
            friend class shared_mutex;
    };
    using spinlock = mutex;
    using no_mutex = mutex;
    class shared_mutex
    {
        public:
            void lock()
            {
                sim::yield();
                while (_exclusive || _shared) wait();
                _exclusive = true;
            }
            bool try_lock()
            {
                if (_exclusive || _shared) return false;
                return _exclusive = true;
            }
            void unlock()
            {
                if (!_exclusive) sim::fail("mutex", "unlocking a shared_mutex which is not locked");
                _exclusive = false;
                wake();
                if (sim::current()) sim::yield();
            }
            void lock_shared()
            {
                sim::yield();
                while (_exclusive) wait();
                ++_shared;
            }
            void unlock_shared()
            {
                if (_shared == 0) sim::fail("mutex", "unlocking a shared_mutex which is not locked");
                --_shared;
                wake();
                if (sim::current()) sim::yield();
            }

        private:
            void wait();
            void wake();
            bool _exclusive = false;
            int _shared = 0;
            std::vector<bool*> _flags;
            std::vector<sim::Fiber*> _waiters;
    };
    class condition_variable_any
    {
        public:
            template<typename Lock>
            void wait(Lock& lock)
            {
                lock.unlock();
                block();
                lock.lock();
            }
            template<typename Lock, typename Pred>
            void wait(Lock& lock, Pred p)
            {
                while (!p()) wait(lock);
            }
            void notify_one();
            void notify_all();

        private:
            void block();
            std::vector<bool*> _flags;
            std::vector<sim::Fiber*> _waiters;
    };
    using condition_variable = condition_variable_any;
    namespace sim {
        extern std::set<void const*> live_semaphores;
    }
    class sliding_semaphore
    {
        public:
            explicit sliding_semaphore(std::int64_t max_difference, std::int64_t lower_limit = 0):
                _max_difference{max_difference},
                _lower{lower_limit}
            {
                sim::live_semaphores.insert(this);
            }
            sliding_semaphore(sliding_semaphore const&) = delete;
            ~sliding_semaphore() { sim::live_semaphores.erase(this); }
            void wait(std::int64_t upper)
            {
                sim::yield();
                while (upper - _max_difference > _lower) block();
            }
            bool try_wait(std::int64_t upper) { return !(upper - _max_difference > _lower); }
            void signal(std::int64_t lower);
            std::int64_t signal_all() { auto l = _lower; signal(l); return l; }

        private:
            void block();
            std::int64_t _max_difference, _lower;
            std::vector<bool*> _flags;
            std::vector<sim::Fiber*> _waiters;
    };

    // ------------------------------------------------------------------ channels and names
    namespace sim {
        detail::state_ptr<id_type>& name_slot(std::string const& name);
        void forget_name(std::string const& name);
        std::size_t nr_names();
    }
    namespace lcos {

        namespace server {
            template<typename T>
            struct channel: components::component_base<channel<T>>
            {
                std::vector<T> values;             // front first
                std::vector<std::shared_ptr<detail::state<T>>> pending;
                bool closed = false;
                void set(T v)
                {
                    if (closed) throw hpx::exception("channel is closed");
                    if (!pending.empty())
                    {
                        auto st = pending.front();
                        pending.erase(pending.begin());
                        st->set_value(std::move(v));
                    }
                    else values.push_back(std::move(v));
                }
                future<T> get()
                {
                    auto st = std::make_shared<detail::state<T>>();
                    if (!values.empty())
                    {
                        st->set_value(std::move(values.front()));
                        values.erase(values.begin());
                    }
                    else if (closed) st->set_error(std::make_exception_ptr(hpx::exception("channel is closed")));
                    else pending.push_back(st);
                    return future<T>(st);
                }
                std::size_t close()
                {
                    if (closed) throw hpx::exception("channel is already closed");
                    closed = true;
                    auto ps = std::move(pending);
                    pending.clear();
                    for (auto& p : ps) p->set_error(std::make_exception_ptr(hpx::exception("channel is closed")));
                    return ps.size();
                }
            };
        }  // namespace server

        template<typename T>
        class channel: public components::client_base<channel<T>, server::channel<T>>
        {
                using Base = components::client_base<channel<T>, server::channel<T>>;
                using Server = server::channel<T>;

            public:
                channel() = default;
                explicit channel(id_type const& id): Base{start(id)} {}
                explicit channel(future<id_type>&& f): Base{std::move(f)} {}
                channel(future<channel>&& f): Base{std::move(f)} {}
                explicit channel(shared_future<id_type> const& f): Base{f} {}

                void set(T v) const
                {
                    id_type id = this->get_id();
                    if (id.locality() == sim::here()) { static_cast<Server*>(id.object->ptr)->set(std::move(v)); sim::yield(); return; }
                    auto b = serialization::pack(v);
                    sim::send(
                        id.locality(),
                        [id, b = std::move(b)]() mutable
                        {
                            T r{};
                            serialization::unpack(b, r);
                            static_cast<Server*>(id.object->ptr)->set(std::move(r));
                        });
                }
                future<T> get(launch::async_policy = {}) const
                {
                    id_type id = this->get_id();
                    if (id.locality() == sim::here())
                    {
                        sim::yield();
                        return static_cast<Server*>(id.object->ptr)->get();
                    }
                    auto st = std::make_shared<detail::state<T>>();
                    std::uint32_t const from = sim::here();
                    sim::send(
                        id.locality(),
                        [id, st, from]()
                        {
                            auto f = static_cast<Server*>(id.object->ptr)->get();
                            auto in = detail::access::state_of(f);
                            auto* raw = in.get();
                            raw->on_ready(
                                [in, st, from, l = id.locality()]()
                                {
                                    sim::At at{l};
                                    auto ex = in->error;
                                    serialization::Buffer b;
                                    if (!ex) b = serialization::pack(*in->value);
                                    sim::send(
                                        from,
                                        [st, ex, b = std::move(b)]() mutable
                                        {
                                            if (ex) { st->set_error(ex); return; }
                                            T r{};
                                            serialization::unpack(b, r);
                                            st->set_value(std::move(r));
                                        });
                                });
                        });
                    return future<T>(st);
                }
                T get(launch::sync_policy) const { return get().get(); }
                std::size_t close(bool = false) const
                {
                    id_type id = this->get_id();
                    return detail::call_at<std::size_t>(
                        id.locality(), true, [id](std::tuple<>&) { return static_cast<Server*>(id.object->ptr)->close(); }, std::tuple<>())
                        .get();
                }
                struct iterator
                {
                    using value_type = T;
                    using difference_type = std::ptrdiff_t;
                    channel const* c = nullptr;
                    std::optional<T> v;
                    void next()
                    {
                        if (!c) return;
                        auto f = c->get();
                        f.wait();
                        if (f.has_exception()) { c = nullptr; v.reset(); return; }
                        v.emplace(f.get());
                    }
                    T const& operator*() const { return *v; }
                    T const* operator->() const { return &*v; }
                    iterator& operator++() { next(); return *this; }
                    bool operator==(iterator const& o) const { return c == o.c; }
                    bool operator!=(iterator const& o) const { return c != o.c; }
                };
                iterator begin() const { iterator i; i.c = this; i.next(); return i; }
                iterator end() const { return {}; }

            private:
                static future<id_type> start(id_type const& id)
                {
                    // an id of a locality: create a channel there. An id of a channel: refer to it
                    if (id && id.object->is_locality) return hpx::new_<Server>(id);
                    return make_ready_future(id);
                }
        };
    }  // namespace lcos
    namespace distributed { template<typename T> using channel = lcos::channel<T>; template<typename T> using promise = hpx::promise<T>; }

    namespace detail {
        inline std::string slot_name(std::string const& base, std::size_t nr) { return base + "/" + std::to_string(nr); }
    }
    template<typename D, typename S>
    future<bool> register_with_basename(std::string const& base, components::client_base<D, S> const& client, std::size_t nr = std::size_t(-1))
    {
        auto name = detail::slot_name(base, nr);
        auto in = detail::access::state_of(client);
        auto st = std::make_shared<detail::state<bool>>();
        std::uint32_t const from = sim::here();
        auto work = [name, in, st, from]()
        {
            sim::At at{from};
            id_type id = *in->value;
            // names are kept at locality 0
            auto apply = [name, id, st, from]()
            {
                auto& slot = sim::name_slot(name);
                bool ok = !slot->ready;
                if (ok) slot->set_value(id);
                if (from == sim::here()) st->set_value(ok);
                else sim::send(from, [st, ok]() { st->set_value(ok); });
            };
            if (from == 0) apply();
            else sim::send(0, apply);
        };
        auto* raw = in.get();
        raw->on_ready(work);
        return future<bool>(st);
    }
    template<typename Client>
    Client find_from_basename(std::string const& base, std::size_t nr = std::size_t(-1))
    {
        auto name = detail::slot_name(base, nr);
        auto st = std::make_shared<detail::state<id_type>>();
        std::uint32_t const from = sim::here();
        auto apply = [name, st, from]()
        {
            auto slot = sim::name_slot(name);
            auto* raw = slot.get();
            raw->on_ready(
                [slot, st, from]()
                {
                    sim::At at{0};
                    id_type id = *slot->value;
                    if (from == 0) st->set_value(id);
                    else sim::send(from, [st, id]() { st->set_value(id); });
                });
        };
        if (from == 0) apply();
        else sim::send(0, apply);
        return Client(future<id_type>(st));
    }
    inline future<id_type> unregister_with_basename(std::string const& base, std::size_t nr = std::size_t(-1))
    {
        auto name = detail::slot_name(base, nr);
        return detail::remote_query<id_type>(
            0,
            [name]()
            {
                auto slot = sim::name_slot(name);
                id_type id = slot->ready ? *slot->value : id_type{};
                sim::forget_name(name);
                return id;
            });
    }
    template<typename Client>
    Client unregister_with_basename(std::string const& base, std::size_t nr = std::size_t(-1)) { return Client(unregister_with_basename(base, nr)); }

    // ------------------------------------------------------------------ rest
    inline std::ostream& cout = std::cout;
    inline std::ostream& cerr = std::cerr;
    inline std::ostream& flush(std::ostream& s) { return s; }
    inline std::string get_config_entry(std::string const&, std::string const& d) { return d; }
    inline std::size_t get_os_thread_count() { return 1; }
    inline std::size_t get_num_worker_threads() { return 1; }
    inline std::size_t get_worker_thread_num() { return 0; }
    namespace execution {
        inline constexpr struct par_t {} par{};
        inline constexpr struct seq_t {} seq{};
    }
    template<typename P, typename I, typename O, typename F>
    O transform(P, I b, I e, O o, F f) { return std::transform(b, e, o, f); }

}  // namespace hpx
