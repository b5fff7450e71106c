// Deterministic simulation kit: simulated disk, clock and fault injector behind the POSIX seam,
// traces, incarnations (process restarts), exploration and minimisation.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {

    // ---------------------------------------------------------------- random numbers
    struct Rng
    {
        std::uint64_t s;
        explicit Rng(std::uint64_t seed = 1): s{seed * 0x9E3779B97F4A7C15ull + 0x1234567ull} { next(); next(); }
        std::uint64_t next()
        {
            s += 0x9E3779B97F4A7C15ull;
            std::uint64_t z = s;
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        std::uint64_t below(std::uint64_t n) { return n == 0 ? 0 : next() % n; }
        std::int64_t range(std::int64_t lo, std::int64_t hi) { return lo + (std::int64_t)below((std::uint64_t)(hi - lo + 1)); }
        bool chance(double p) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    };

    inline std::uint64_t mix(std::uint64_t h, std::uint64_t v)
    {
        h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        h ^= h >> 32;
        return h;
    }
    std::uint64_t hash_bytes(void const* p, std::size_t n, std::uint64_t h = 1469598103934665603ull);
    inline std::uint64_t hash_str(std::string const& s) { return hash_bytes(s.data(), s.size()); }

    // ---------------------------------------------------------------- traces
    enum FaultClass : std::uint32_t {
        fc_read = 1, fc_write = 2, fc_trunc = 4, fc_open = 8, fc_close = 16, fc_stat = 32, fc_unlink = 64,
        fc_lock = 128, fc_alloc = 256, fc_sync = 512, fc_seek = 1024,
        fc_lib = 2048,  // a call into a third-party library, see library_call()
        fc_clock = 4096, // reading a clock (only when clock_events is set)
        // decisions of the simulated runtime, see decision_event()
        fc_msg = 8192,   // a parcel leaves for another locality
        fc_sched = 16384,// which of several runnable lightweight threads continues
        fc_yield = 32768 // whether the running lightweight thread is preempted here
    };
    enum FaultKind : std::uint32_t {
        fk_eio = 0, fk_enospc = 1, fk_short = 2, fk_eintr = 3, fk_torn = 4, fk_crash = 5, fk_eacces = 6,
        fk_emfile = 7, fk_ewouldblock = 8, fk_badalloc = 9, fk_clockjump = 10, fk_stall = 11,
        fk_pick = 12, fk_last = 13, fk_slow = 14, fk_delay = 15, fk_preempt = 16, fk_nr
    };
    extern char const* fault_kind_name[fk_nr];

    struct Op
    {
        std::string kind;
        std::vector<std::uint64_t> a;
        std::uint64_t arg(std::size_t i) const { return i < a.size() ? a[i] : 0; }
    };
    struct Fault
    {
        std::uint32_t op = 0;    // armed when this op starts
        std::uint32_t nth = 0;   // after this many matching events
        std::uint32_t cls = 0;   // mask of classes
        std::uint32_t kind = 0;
        std::uint32_t arg = 0;   // bytes transferred for short/torn/crash (modulo size), errno etc.
        std::uint32_t count = 1; // number of consecutive matching events that fail
    };
    struct Trace
    {
        std::string profile;
        std::uint64_t seed = 0;
        std::map<std::string, std::int64_t> cfg;
        std::vector<Op> ops;
        std::vector<Fault> faults;
        std::int64_t c(std::string const& k, std::int64_t d = 0) const
        {
            auto it = cfg.find(k);
            return it == cfg.end() ? d : it->second;
        }
    };

    // ---------------------------------------------------------------- outcomes
    enum OutcomeCode : std::int32_t { oc_none = 0, oc_ok = 1, oc_threw = 2, oc_crashed = 3, oc_skipped = 4 };

    // thrown by harness oracles
    struct Violation: std::runtime_error
    {
        std::string cls;
        Violation(std::string c, std::string const& what): std::runtime_error(what), cls{std::move(c)} {}
    };
    [[noreturn]] void violate(std::string const& cls, std::string const& what);

    // ---------------------------------------------------------------- run context
    struct Stats
    {
        std::map<std::string, std::uint64_t> probes;
    };

    // Called by harnesses
    void probe(char const* name);             // count a rare condition
    void state(std::uint64_t h);              // record an abstract state reached
    void log_event(std::uint64_t h);          // mix into the event hash
    std::uint32_t faults_fired_reading();     // of those: reads
    std::uint32_t faults_fired_opening();     // of those: opening files or looking at whether they exist
    std::uint32_t faults_fired();             // faults that had an effect so far in this run (not benign ones)
    std::uint32_t faults_fired_total();       // including benign (short, eintr)
    std::uint64_t io_events();
    std::uint64_t sim_now_ns();               // simulated monotonic clock
    std::int64_t sim_wall_ns();
    void sim_advance(std::uint64_t ns);
    void sim_wall_jump(std::int64_t ns);
    extern bool clock_events;                 // reading a clock is an event at which faults can fire
    extern std::vector<std::int64_t> wall_samples;   // with clock_events: what reading the wall clock returned
    void sim_set_faults(bool enabled);        // oracle reads run with faults disabled
    bool sim_faults_enabled();
    struct NoFaults { bool prev; NoFaults(): prev{sim_faults_enabled()} { sim_set_faults(false); } ~NoFaults() { sim_set_faults(prev); } };

    // the process ends here without cleaning up and a new one continues with the next op
    [[noreturn]] void restart_process();

    // Simulated file system access for oracles
    bool fs_exists(std::string const& path);
    std::vector<unsigned char> fs_content(std::string const& path);
    void fs_put(std::string const& path, std::vector<unsigned char> const& content);
    void fs_remove(std::string const& path);
    std::vector<std::string> fs_list();
    int fs_open_descriptors(std::string const& path = "");     // in this process
    std::uint64_t fs_write_calls();            // write/trunc/create/unlink calls issued (this run)
    void fs_set_capacity(std::uint64_t bytes); // disk full beyond this total; 0 = unlimited

    // allocation faults are only injected when inside system under test
    extern thread_local int in_sut;
    struct InSut { InSut() { ++in_sut; } ~InSut() { --in_sut; } };

    struct Run
    {
        Trace const& trace;
        std::size_t op_idx = 0;
        bool real = true;                 // false: rebuild the model from the logged outcome
        int incarnation = 0;
        std::int32_t logged = oc_none;    // outcome logged for this op when !real
        std::uint64_t logged_value = 0;
        bool last_op_crashed = false;
        std::uint16_t restart = 0;        // what restarted() concluded: available as logged_value when !real, 0: nothing
        int death = 0;                    // in restarted(): 1 died in an op, 2 died in finish(), 3 ended by restart_process()
        explicit Run(Trace const& t): trace{t} {}
        // record the outcome of the current op (visible to the next incarnation)
        void outcome(std::int32_t code, std::uint64_t value = 0);
    };

    struct Harness
    {
        virtual ~Harness() = default;
        // fill cfg, ops and faults
        virtual void generate(Rng& rng, Trace& trace) = 0;
        // begin incarnation (new process). Model must be at its initial state
        virtual void begin(Run& run) = 0;
        virtual void step(Run& run, Op const& op) = 0;
        // called after a crash (in the new incarnation after the model was rebuilt), before continuing.
        // Also called, with run.real false, while rebuilding the model of later incarnations
        virtual void restarted(Run& run) { (void)run; }
        virtual void finish(Run& run) = 0;
        virtual std::vector<std::string> profiles() const = 0;
        virtual std::string describe(Op const& op) const;
        // whether dying (signal) of the process inside step is tolerated - never by default
        virtual std::vector<std::string> components_real() const { return {}; }
        virtual std::vector<std::string> components_stub() const { return {}; }
    };

    using Factory = std::function<Harness*(std::string const& profile)>;
    int main_(int argc, char** argv, Factory const& factory);
    extern void (*before_runs)();              // what all runs share, done once

    // Harnesses that put a seam between LUE and a third-party library announce each call: true when it must fail
    bool library_call(char const* what);
    // A simulated runtime takes a decision: true when the trace has it deviate from the default. seq: how often this
    // entry of the trace fired before
    bool decision_event(std::uint32_t cls, std::uint64_t tag, std::uint32_t& kind, std::uint32_t& arg, std::uint32_t& seq);
    // a third-party library that never returns after a storage failure counts as a crash
    extern bool stuck_library_is_crash;
    // faults of these classes do not fire while this lives
    void mask_faults(std::uint32_t classes);
    std::uint32_t masked_faults();
    struct Without { std::uint32_t prev; explicit Without(std::uint32_t c): prev{masked_faults()} { mask_faults(prev | c); } ~Without() { mask_faults(prev); } };

    // Hook for multi-process simulations: called before every I/O event when set
    extern void (*on_io_event)(std::uint32_t cls);
    void set_actor(int actor);   // own fault/lock identity (multi process runs)
    void release_locks(int actor);
    void* shared_scratch(std::size_t* size);   // zeroed at the start of each run, shared between incarnations
}  // namespace sim
