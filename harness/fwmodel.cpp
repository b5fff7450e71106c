// Runs of models: order of stages, number of time steps in flight, end of the run.
#include "fw.hpp"
#include "lue/framework/algorithm/value_policies/add.hpp"
#include "lue/framework/algorithm/definition/binary_local_operation.hpp"
#include "lue/framework/algorithm/definition/add.hpp"
#include "lue/framework/model/model.hpp"
#include "lue/framework/model/progressor.hpp"
#include "lue/framework/model/simulate.hpp"

namespace fw {
    struct Failure: std::runtime_error { using std::runtime_error::runtime_error; };
    enum Stage { s_preprocess, s_initialize, s_simulate, s_finalize, s_postprocess, s_nr };
    char const* const stage_name[] = {"preprocess", "initialize", "simulate", "finalize", "postprocess"};

    struct Spec
    {
        u64 kind = 0;           // 0: simulate, 1: run_deterministic, 2: run_stochastic
        Count samples = 0, first = 1, last = 0, limit = 0;
        u64 seed = 0;
        int mix_of = 0;         // how steps finish
        // failing stage: sample (from 0), actor (0: progressor, 1: model), stage, step
        int fail_sample = -1, fail_actor = 0, fail_stage = 0;
        Count fail_step = 0;
        Count nr() const { return last - first + 1; }
        Count effective() const { return limit > 0 ? limit : std::max<Count>(nr(), 1); }
    };
    struct Call
    {
        int actor; Stage stage; Count n;
        bool operator==(Call const&) const = default;
        std::string str() const { return std::string(actor ? "model" : "progressor") + "." + stage_name[stage] + "(" + std::to_string(n) + ")"; }
    };
    struct Recorder
    {
        Spec const* spec;
        World* w;
        std::vector<Call> calls, expected;
        std::size_t fail_at = ~std::size_t(0);
        // steps of the current sample
        std::vector<hpx::shared_future<void>> states;
        std::vector<std::shared_ptr<hpx::promise<void>>> waiting;    // finish once a later step started
        int sample = -1;
        Count started = 0;
        Opt<Array<I>> state;
        Ref<I> ref;

        void expect()
        {
            auto deterministic = [&]
            {
                if (spec->kind > 0) { expected.push_back({0, s_initialize, 0}); expected.push_back({1, s_initialize, 0}); }
                for (Count t = spec->first; t <= spec->last; ++t) { expected.push_back({1, s_simulate, t}); expected.push_back({0, s_simulate, t}); }
                if (spec->kind > 0) { expected.push_back({1, s_finalize, 0}); expected.push_back({0, s_finalize, 0}); }
            };
            int samples = spec->kind == 2 ? (int)spec->samples : 1;
            for (int s = 0; s < samples; ++s)
            {
                auto begin = expected.size();
                if (spec->kind == 2) { expected.push_back({0, s_preprocess, s + 1}); expected.push_back({1, s_preprocess, s + 1}); }
                deterministic();
                if (spec->kind == 2) { expected.push_back({1, s_postprocess, 0}); expected.push_back({0, s_postprocess, 0}); }
                if (s == spec->fail_sample)
                    for (auto i = begin; i < expected.size(); ++i)
                        if (expected[i].actor == spec->fail_actor && expected[i].stage == spec->fail_stage && (spec->fail_stage != s_simulate || expected[i].n == spec->fail_step))
                        {
                            fail_at = i;
                            expected.resize(i + 1);
                            return;
                        }
            }
        }
        void all_done(char const* when)
        {
            for (std::size_t i = 0; i < states.size(); ++i)
                if (!states[i].is_ready())
                    violate("unfinished", std::string(when) + " while time step " + std::to_string(spec->first + (Count)i) + " has not finished");
        }
        void call(int actor, Stage stage, Count n)
        {
            Call c{actor, stage, n};
            auto i = calls.size();
            calls.push_back(c);
            sim::log_event(sim::mix((u64)actor * 10 + (u64)stage, (u64)n));
            if (i >= expected.size()) violate("order", c.str() + " called after the run should have ended");
            if (!(expected[i] == c)) violate("order", c.str() + " called instead of " + expected[i].str());
            if (stage == s_finalize || stage == s_postprocess) all_done((c.str() + " called").c_str());
            if (stage == s_preprocess || stage == s_initialize) { states.clear(); waiting.clear(); }
            if (i == fail_at) throw Failure(c.str());
        }
    };
    template<typename Base_>
    struct Stages: Base_
    {
        Recorder& r;
        int actor;
        Stages(Recorder& r, int actor): r{r}, actor{actor} {}
        void preprocess(Count s) override { r.call(actor, s_preprocess, s); }
        void initialize() override { r.call(actor, s_initialize, 0); }
        void finalize() override { r.call(actor, s_finalize, 0); }
        void postprocess() override { r.call(actor, s_postprocess, 0); }
    };
    struct TheProgressor: Stages<lue::Progressor>
    {
        explicit TheProgressor(Recorder& r): Stages{r, 0} {}
        void simulate(Count t) override { r.call(0, s_simulate, t); }
    };
    struct TheModel: Stages<lue::Model>
    {
        explicit TheModel(Recorder& r): Stages{r, 1} {}
        auto simulate(Count t) -> hpx::shared_future<void> override
        {
            Spec const& s = *r.spec;
            // this one included, how many time steps are being worked on?
            auto i = (std::size_t)(t - s.first);
            std::size_t slowest = i;
            for (std::size_t k = 0; k < r.states.size(); ++k)
                if (!r.states[k].is_ready()) { slowest = k; break; }
            if ((Count)(i - slowest) >= s.effective())
                violate("rate-limit", "time step " + std::to_string(t) + " starts while time step " + std::to_string(s.first + (Count)slowest) + " has not finished: more than " + std::to_string(s.effective()) + " at the same time");
            if (i > slowest) sim::probe("steps in flight");
            if ((Count)(i - slowest) + 1 == s.effective() && s.effective() > 1) sim::probe("at the limit");
            r.call(1, s_simulate, t);
            auto f = work(t);
            r.states.push_back(f);
            // let those finish which waited for this one
            if ((Count)i + 1 - s.effective() >= 0)
            {
                auto& p = r.waiting;
                auto k = i + 1 - (std::size_t)s.effective();
                if (k < p.size() && p[k]) { auto q = std::move(p[k]); q->set_value(); }
            }
            if (t == s.last) for (auto& p : r.waiting) if (p) { auto q = std::move(p); q->set_value(); }
            sim::state(sim::mix(i - slowest, r.calls.size()));
            return f;
        }
        hpx::shared_future<void> work(Count t)
        {
            Spec const& s = *r.spec;
            u64 x = sim::mix(s.seed, (u64)t);
            r.waiting.resize((std::size_t)(t - s.first) + 1);
            u64 how = s.mix_of < 6 ? (u64)s.mix_of : x % 6;
            switch (how)
            {
                case 0: return hpx::make_ready_future();
                case 1: return hpx::async([x] { for (u64 k = 0; k < x % 5; ++k) hpx::this_thread::yield(); });
                case 2:
                {
                    auto p = std::make_shared<hpx::promise<void>>();
                    hpx::shared_future<void> f = p->get_future();
                    hpx::sim::after(1 + (x >> 8) % 300, [p] { p->set_value(); });
                    return f;
                }
                case 3:
                {
                    // fulfilled once as many steps as allowed are being worked on
                    auto p = std::make_shared<hpx::promise<void>>();
                    hpx::shared_future<void> f = p->get_future();
                    r.waiting.back() = std::move(p);
                    sim::probe("step waits for the last one allowed");
                    return f;
                }
                case 4:
                    if (r.state)
                    {
                        // the state variable becomes what it was, plus something
                        I d = (I)(x % 7);
                        r.state = lue::value_policies::add(*r.state, lue::Scalar<I>{d});
                        for (auto& v : r.ref) if (v) *v += d;
                        auto& ps = r.state->partitions();
                        return hpx::when_all(ps.begin(), ps.end()).then([](auto&&) {});
                    }
                    return hpx::make_ready_future();
                default:
                    if (x & 64) return hpx::async([] { throw Failure("task"); });
                    return hpx::async([] {});
            }
        }
    };

    struct H: Base
    {
        using Base::Base;
        std::vector<std::string> profiles() const override { return {"F04"}; }
        void generate(Rng& rng, Trace& t) override
        {
            generate_geometry(rng, t);
            t.cfg["h"] = std::min<i64>(t.cfg["h"], 6);
            t.cfg["w"] = std::min<i64>(t.cfg["w"], 6);
            int n = (int)rng.range(1, 3);
            for (int i = 0; i < n; ++i)
            {
                u64 steps = rng.chance(0.1) ? 0 : rng.chance(0.8) ? rng.range(1, 12) : rng.range(10, 60);
                u64 limit = rng.chance(0.2) ? 0 : rng.chance(0.7) ? rng.range(1, 4) : rng.range(1, (i64)steps + 3);
                Op op{"model", {rng.below(3), rng.range(0, 3), rng.chance(0.5) ? 1 : rng.below(50), steps, limit, rng.next() >> 20, rng.chance(0.5) ? 6 : rng.below(6),
                    rng.chance(0.3), rng.below(3), rng.below(2), rng.chance(0.6) ? (u64)s_simulate : rng.below(s_nr), rng.below(steps + 1)}};
                t.ops.push_back(op);
                if (rng.chance(0.3)) t.ops.push_back({"run", {rng.below(200)}});
            }
            generate_schedule(rng, t);
        }
        void step(Run&, Op const& op) override
        {
            if (common_op(op)) return;
            if (op.kind != "model") return;
            Spec s;
            s.kind = op.arg(0) % 3;
            s.samples = (Count)(op.arg(1) % 8);
            s.first = s.kind == 0 ? (Count)(op.arg(2) % 1000) : 1;
            s.last = s.first + (Count)(op.arg(3) % 100) - 1;
            if (s.kind == 0 && s.last < s.first) s.last = s.first;
            s.limit = (Count)(op.arg(4) % 200);
            s.seed = op.arg(5);
            s.mix_of = (int)(op.arg(6) % 7);
            if (op.arg(7) & 1)
            {
                s.fail_sample = s.kind == 2 ? (int)(op.arg(8) % 8) : 0;
                s.fail_actor = (int)(op.arg(9) & 1);
                s.fail_stage = (int)(op.arg(10) % s_nr);
                s.fail_step = s.first + (Count)(op.arg(11) % 100);
            }
            Recorder r{&s, &w, {}, {}};
            r.expect();
            r.ref = content<I>(w, s.seed, k_small, 10);
            r.state = w.make<I>(run->trace, r.ref, s.seed % 4, s.seed);
            TheProgressor p{r};
            TheModel m{r};
            bool failed = false;
            try
            {
                if (s.kind == 0) lue::simulate(m, p, s.first, s.last, s.limit);
                else if (s.kind == 1) lue::run_deterministic(m, p, s.last, s.limit);
                else lue::run_stochastic(m, p, s.samples, s.last, s.limit);
            }
            catch (Failure const& e)
            {
                failed = true;
                if (r.fail_at >= r.calls.size() || r.calls[r.fail_at].str() != e.what())
                    violate("exception", std::string("an exception reached the caller which no stage threw: ") + e.what());
            }
            if (failed != (r.fail_at != ~std::size_t(0)))
                violate("exception", failed ? "the run failed without a stage that failed" : "the exception thrown by " + r.calls.back().str() + " did not reach the caller");
            if (r.calls.size() != r.expected.size())
                violate("order", "the run ended before " + r.expected[r.calls.size()].str());
            if (!failed) r.all_done("the run returned");
            else
            {
                sim::probe("failing stage");
                for (auto& q : r.waiting) if (q) q->set_value();
                for (auto& f : r.states) f.wait();
                progress(500);
            }
            w.put<I>(0, std::move(*r.state), std::move(r.ref));
            r.state.reset();
        }
    };
}  // namespace fw

int main(int argc, char** argv)
{
    return sim::main_(argc, argv, [](std::string const& p) { return new fw::H(p); });
}
