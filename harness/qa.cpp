// Measuring and saving: lue::qa on simulated clocks and the simulated disk.
#include "simkit.hpp"
#include "lue/qa/scalability/instrument/io.hpp"
#include <nlohmann/json.hpp>
#include <ctime>
#include <memory>
#include <optional>

namespace qa = lue::qa;
using sim::Op;
using sim::Rng;
using sim::Run;
using sim::Trace;
using sim::violate;
using u64 = std::uint64_t;
using i64 = std::int64_t;

namespace {
    i64 ns_of(qa::Stopwatch::SystemTimePoint const& t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }

    // what is known about a stopwatch
    struct Watch
    {
        bool started = false, stopped = false;
        i64 mono_lo = 0, mono_hi = 0;          // when it was started
        std::optional<i64> start, duration;    // as observed right after starting and stopping, checked then
    };
    struct MExp
    {
        Watch watch;
        std::vector<Watch> runs;
        u64 nr_workers = 0, a[2]{}, p[2]{};
    };
    // what was saved, visible to later incarnations
    struct Saved { u64 state, hash; };         // state: 0 absent, 1 content with that hash, 2 unknown

    constexpr int nr_paths = 3, nr_runs = 4, nr_exps = 3;

    struct H: sim::Harness
    {
        std::string profile;
        Run* run = nullptr;
        std::array<qa::Run, nr_runs> runs{};
        std::array<Watch, nr_runs> mruns{};
        std::array<std::unique_ptr<qa::ArrayExperiment>, nr_exps> exps{};
        std::array<MExp, nr_exps> mexps{};
        Saved* saved = nullptr;

        explicit H(std::string p): profile{std::move(p)} {}
        std::vector<std::string> profiles() const override { return {"Q01", "Q02"}; }
        std::string path(u64 i) const { return "/simfs/results" + std::to_string(i) + (i == 1 ? " of rün.json" : ".json"); }

        void begin(Run& r) override
        {
            run = &r;
            sim::clock_events = true;
            static char const* const zones[] = {"UTC0", "IST-5:30", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "NZST-12NZDT,M9.5.0,M4.1.0/3", "HST10"};
            setenv("TZ", zones[r.trace.c("tz") % 6], 1);
            tzset();
            static std::size_t n = 0;
            saved = (Saved*)sim::shared_scratch(&n);
            if (r.incarnation == 0)
            {
                if (r.trace.c("capacity")) sim::fs_set_capacity((u64)r.trace.c("capacity"));
                if (r.trace.c("wall")) sim::sim_wall_jump(r.trace.c("wall") * 1000000000ll);
            }
        }
        void restarted(Run&) override { check_files(-1); }

        // ------------------------------------------------------------------ oracles
        void check_watch(qa::Run const& r, Watch& w, char const* what)
        {
            if (w.started)
            {
                i64 s = ns_of(r.start_time_point());
                if (w.start && *w.start != s)
                    violate("start", std::string(what) + ": the start time changed from " + std::to_string(*w.start) + " to " + std::to_string(s));
                w.start = s;
            }
            if (w.started)
            {
                i64 d = r.duration<std::chrono::nanoseconds>().count();
                if (d < 0) violate("negative", std::string(what) + ": negative duration " + std::to_string(d));
                if (w.stopped)
                {
                    if (w.duration && *w.duration != d)
                        violate("duration", std::string(what) + ": the duration changed from " + std::to_string(*w.duration) + " to " + std::to_string(d));
                    w.duration = d;
                    if (r.duration<std::chrono::microseconds>().count() != d / 1000 || r.duration<std::chrono::milliseconds>().count() != d / 1000000 ||
                        r.duration<std::chrono::seconds>().count() != d / 1000000000)
                        violate("units", std::string(what) + ": duration in other units differs from " + std::to_string(d) + " ns");
                }
            }
        }
        void start(qa::Run& r, Watch& w, char const* what)
        {
            Watch n;
            sim::wall_samples.clear();
            i64 wall0 = sim::sim_wall_ns();
            n.mono_lo = (i64)sim::sim_now_ns();
            { sim::InSut in; r.start(); }
            n.mono_hi = (i64)sim::sim_now_ns();
            i64 wall1 = sim::sim_wall_ns(), lo = std::min(wall0, wall1), hi = std::max(wall0, wall1);
            for (i64 s : sim::wall_samples) { lo = std::min(lo, s); hi = std::max(hi, s); }
            n.started = true;
            w = n;
            i64 s = ns_of(r.start_time_point());
            if (s < lo || s > hi)
                violate("start", std::string(what) + ": started while the wall clock said " + std::to_string(lo) + ".." + std::to_string(hi) + ", recorded " + std::to_string(s));
            check_watch(r, w, what);
        }
        void stop(qa::Run& r, Watch& w, char const* what)
        {
            i64 lo = (i64)sim::sim_now_ns();
            { sim::InSut in; r.stop(); }
            i64 hi = (i64)sim::sim_now_ns();
            w.stopped = true;
            w.duration.reset();
            i64 d = r.duration<std::chrono::nanoseconds>().count();
            if (d < lo - w.mono_hi || d > hi - w.mono_lo)
                violate("duration", std::string(what) + ": " + std::to_string(lo - w.mono_hi) + ".." + std::to_string(hi - w.mono_lo) + " ns elapsed, measured " + std::to_string(d));
            check_watch(r, w, what);
        }
        void check_all()
        {
            for (int i = 0; i < nr_runs; ++i) check_watch(runs[i], mruns[i], "run");
            for (int i = 0; i < nr_exps; ++i)
                if (exps[i]) check_exp(*exps[i], mexps[i]);
        }
        void check_exp(qa::ArrayExperiment const& e, MExp& m)
        {
            check_watch(e, m.watch, "experiment");
            if (e.nr_workers() != m.nr_workers || e.array_shape() != qa::Shape{m.a[0], m.a[1]} || e.partition_shape() != qa::Shape{m.p[0], m.p[1]})
                violate("experiment", "number of workers or shapes of an experiment differ from those given");
            if (e.runs().size() != m.runs.size())
                violate("runs", "experiment has " + std::to_string(e.runs().size()) + " runs instead of " + std::to_string(m.runs.size()));
            for (std::size_t i = 0; i < m.runs.size(); ++i) check_watch(e.runs()[i], m.runs[i], "run of experiment");
        }
        static i64 parse_iso(std::string const& s)
        {
            int Y, M, D, h, m, sec, zh, zm;
            char sign, rest;
            if (std::sscanf(s.c_str(), "%d-%2d-%2dT%2d:%2d:%2d%c%2d%2d%c", &Y, &M, &D, &h, &m, &sec, &sign, &zh, &zm, &rest) != 9 || (sign != '+' && sign != '-'))
                violate("json", "not an ISO 8601 time: " + s);
            i64 y = Y - (M <= 2), era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400;
            i64 doy = (153 * (M + (M > 2 ? -3 : 9)) + 2) / 5 + D - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
            i64 t = (era * 146097 + doe - 719468) * 86400 + h * 3600 + m * 60 + sec;
            i64 off = zh * 3600 + zm * 60;
            return sign == '+' ? t - off : t + off;
        }
        void check_time(nlohmann::json const& j, qa::Run const& r, std::string const& what)
        {
            i64 want = ns_of(r.start_time_point()) / 1000000000, got = parse_iso(j.at("start").get<std::string>());
            if (want != got) violate("saved", what + " saved with start " + j.at("start").get<std::string>() + " instead of " + std::to_string(want));
            if (j.at("duration").get<i64>() != r.duration<std::chrono::milliseconds>().count())
                violate("saved", what + " saved with duration " + j.at("duration").dump() + " instead of " + std::to_string(r.duration<std::chrono::milliseconds>().count()) + " ms");
        }
        void check_saved(std::string const& p, qa::ArrayExperiment const& e)
        {
            if (!sim::fs_exists(p)) violate("saved", "saved results do not exist");
            auto c = sim::fs_content(p);
            nlohmann::json j;
            try { j = nlohmann::json::parse(c.begin(), c.end()); }
            catch (std::exception const& x) { violate("json", "saved results cannot be parsed, " + std::to_string(c.size()) + " bytes: " + x.what()); }
            try
            {
                check_time(j, e, "experiment");
                if (j.at("unit") != "millisecond") violate("saved", "unit is " + j.at("unit").dump());
                if (j.at("environment").at("nr_workers").get<u64>() != e.nr_workers()) violate("saved", "other number of workers saved");
                auto pair = [](nlohmann::json const& v) { return qa::Shape{v.at(0).get<u64>(), v.at(1).get<u64>()}; };
                if (pair(j.at("task").at("array_shape")) != e.array_shape() || pair(j.at("task").at("partition_shape")) != e.partition_shape())
                    violate("saved", "other shapes saved");
                auto const& t = j.at("timings");
                if (t.size() != e.runs().size())
                    violate("saved", std::to_string(t.size()) + " runs saved instead of " + std::to_string(e.runs().size()));
                for (std::size_t i = 0; i < t.size(); ++i) check_time(t[i], e.runs()[i], "run " + std::to_string(i));
            }
            catch (nlohmann::json::exception const& x) { violate("saved", std::string("saved results are incomplete: ") + x.what()); }
        }
        void check_files(int except)
        {
            for (int i = 0; i < nr_paths; ++i)
            {
                if (i == except || saved[i].state == 2) continue;
                bool there = sim::fs_exists(path(i));
                if (there != (saved[i].state == 1)) violate("files", path(i) + (there ? " appeared" : " disappeared"));
                if (there)
                {
                    auto c = sim::fs_content(path(i));
                    if (sim::hash_bytes(c.data(), c.size()) != saved[i].hash) violate("files", path(i) + " changed while it was not saved to");
                }
            }
        }

        // ------------------------------------------------------------------ ops
        void step(Run& r, Op const& op) override
        {
            if (!r.real) return;
            std::string const& k = op.kind;
            int i = (int)(op.arg(0) % nr_runs), e = (int)(op.arg(0) % nr_exps);
            if (k == "advance") sim::sim_advance(op.arg(0));
            else if (k == "jump") sim::sim_wall_jump((i64)op.arg(0));
            else if (k == "run") { runs[i] = qa::Run{}; mruns[i] = {}; }
            else if (k == "start") start(runs[i], mruns[i], "run");
            else if (k == "stop") { if (mruns[i].started) stop(runs[i], mruns[i], "run"); }
            else if (k == "exp")
            {
                mexps[e] = {};
                mexps[e].nr_workers = op.arg(1);
                for (int d = 0; d < 2; ++d) { mexps[e].a[d] = op.arg(2 + d); mexps[e].p[d] = op.arg(4 + d); }
                exps[e] = std::make_unique<qa::ArrayExperiment>(op.arg(1), qa::Shape{op.arg(2), op.arg(3)}, qa::Shape{op.arg(4), op.arg(5)});
            }
            else if (k == "estart") { if (exps[e]) start(*exps[e], mexps[e].watch, "experiment"); }
            else if (k == "estop") { if (exps[e] && mexps[e].watch.started) stop(*exps[e], mexps[e].watch, "experiment"); }
            else if (k == "add")
            {
                if (exps[e])
                {
                    int j = (int)(op.arg(1) % nr_runs);
                    bool added = true;
                    try { sim::InSut in; exps[e]->add(runs[j]); }
                    catch (std::bad_alloc const&) { added = false; sim::probe("out of memory while adding a run"); }
                    if (added) mexps[e].runs.push_back(mruns[j]);
                }
            }
            else if (k == "addself")   // an experiment is a run: nested experiments, and runs already stored
            {
                int f = (int)(op.arg(1) % nr_exps);
                if (exps[e] && exps[f])
                {
                    bool stored = op.arg(2) % 2 && !mexps[f].runs.empty();
                    std::size_t at = stored ? op.arg(3) % mexps[f].runs.size() : 0;
                    Watch w = stored ? mexps[f].runs[at] : mexps[f].watch;
                    bool added = true;
                    try { sim::InSut in; exps[e]->add(stored ? exps[f]->runs()[at] : (qa::Run const&)*exps[f]); }
                    catch (std::bad_alloc const&) { added = false; }
                    if (added) mexps[e].runs.push_back(w);
                    sim::probe(stored ? "stored run added" : "experiment added as run");
                }
            }
            else if (k == "copyrun")
            {
                int j = (int)(op.arg(1) % nr_runs);
                if (op.arg(2) % 3 == 0) runs[i] = runs[j];
                else if (op.arg(2) % 3 == 1) { qa::Run c{runs[j]}; runs[i] = std::move(c); }
                else { qa::Run c{runs[j]}; std::swap(c, runs[i]); }
                mruns[i] = mruns[j];
            }
            else if (k == "copyexp")
            {
                int f = (int)(op.arg(1) % nr_exps);
                if (!exps[f]) { run->outcome(sim::oc_skipped); return; }
                auto m = mexps[f];
                switch (op.arg(2) % 3)
                {
                    case 0: exps[e] = std::make_unique<qa::ArrayExperiment>(*exps[f]); break;
                    case 1:
                        if (exps[e]) *exps[e] = *exps[f];
                        else exps[e] = std::make_unique<qa::ArrayExperiment>(*exps[f]);
                        break;
                    case 2:
                    {
                        auto c = std::make_unique<qa::ArrayExperiment>(std::move(*exps[f]));
                        exps[f].reset();
                        exps[e] = std::move(c);
                        if (e != f) mexps[f] = {};
                        break;
                    }
                }
                mexps[e] = m;
            }
            else if (k == "save")
            {
                if (!exps[e]) { run->outcome(sim::oc_skipped); return; }
                int p = (int)(op.arg(1) % nr_paths);
                saved[p].state = 2;
                auto f0 = sim::faults_fired();
                bool threw = false;
                std::string why;
                // out of memory: the JSON library's destructors allocate and end the process
                try { sim::InSut in; sim::Without alloc{sim::fc_alloc}; qa::save_results(*exps[e], path(p)); }
                catch (sim::Violation const&) { throw; }
                catch (std::exception const& x) { threw = true; why = x.what(); }
                bool faults = sim::faults_fired() != f0;
                if (threw && !faults) violate("unexpected-error", "saving failed without a storage failure: " + why);
                run->outcome(threw ? sim::oc_threw : sim::oc_ok);
                if (sim::fs_open_descriptors()) violate("leak", "file still open after saving");
                sim::NoFaults none;
                if (!threw)
                {
                    check_saved(path(p), *exps[e]);
                    auto c = sim::fs_content(path(p));
                    saved[p] = {1, sim::hash_bytes(c.data(), c.size())};
                    sim::probe(faults ? "saved in spite of a failure" : "saved");
                    if (exps[e]->runs().size() > 40) sim::probe("results larger than a stream buffer");
                }
                else sim::probe("saving failed and said so");
                check_files(p);
                check_all();
                return;
            }
            else if (k == "remove")
            {
                int p = (int)(op.arg(0) % nr_paths);
                sim::fs_remove(path(p));
                saved[p].state = 0;
            }
            run->outcome(sim::oc_ok);
            sim::NoFaults none;
            check_all();
            u64 h = 17;
            for (auto const& m : mruns) h = sim::mix(h, m.started * 2 + m.stopped);
            for (auto const& m : mexps) h = sim::mix(h, m.runs.size() * 4 + m.watch.started * 2 + m.watch.stopped);
            sim::state(h);
        }
        void finish(Run&) override
        {
            sim::NoFaults none;
            check_all();
            check_files(-1);
        }

        // ------------------------------------------------------------------ generation
        static u64 wild(Rng& g)
        {
            switch (g.below(4))
            {
                case 0: return g.below(4);
                case 1: return g.below(100000);
                case 2: return g.next();
                default: return u64(1) << g.below(64);
            }
        }
        void generate(Rng& g, Trace& t) override
        {
            bool q2 = profile == "Q02";
            t.cfg["tz"] = (i64)g.below(6);
            if (g.chance(0.4)) t.cfg["wall"] = g.range(-1600000000, 6000000000);
            int n = (int)g.range(8, 60);
            for (int e = 0; e < 2; ++e) t.ops.push_back({"exp", {(u64)e, wild(g), wild(g), wild(g), wild(g), wild(g)}});
            auto amount = [&]() -> u64 {
                switch (g.below(5))
                {
                    case 0: return 0;
                    case 1: return g.below(2000);
                    case 2: return g.below(5000000000ull);
                    case 3: return g.below(40000000000000ull);
                    default: return g.below(2000000000000000ull);
                }
            };
            auto jump = [&]() -> u64 {
                i64 s = 1;
                switch (g.below(4))
                {
                    case 0: s = g.range(-2000000000, 2000000000); break;
                    case 1: s = g.range(-7200, 7200) * 1000000000ll; break;
                    case 2: s = g.range(-5000000, 5000000) * 1000000000ll; break;
                    default: s = g.range(-30000000, 30000000) * 1000000000ll; break;
                }
                return (u64)s;
            };
            while ((int)t.ops.size() < n)
            {
                u64 a = g.below(4), b = g.below(4), c = g.next();
                u64 w = g.below(q2 ? 34 : 24);
                if (w < 3) t.ops.push_back({"advance", {amount()}});
                else if (w < 5) t.ops.push_back({"jump", {jump()}});
                else if (w < 6) t.ops.push_back({"run", {a}});
                else if (w < 10) t.ops.push_back({"start", {a}});
                else if (w < 13) t.ops.push_back({"stop", {a}});
                else if (w < 14) t.ops.push_back({"exp", {a, wild(g), wild(g), wild(g), wild(g), wild(g)}});
                else if (w < 15) t.ops.push_back({"estart", {a}});
                else if (w < 16) t.ops.push_back({"estop", {a}});
                else if (w < 19) t.ops.push_back({"add", {a, b}});
                else if (w < 20) t.ops.push_back({"addself", {a, b, c, g.next()}});
                else if (w < 21) t.ops.push_back({"copyrun", {a, b, c}});
                else if (w < 22) t.ops.push_back({"copyexp", {a, b, c}});
                else if (w < 23) { for (u64 k = g.below(g.chance(0.1) ? 300 : 30); k-- > 0;) t.ops.push_back({"add", {a, g.below(4)}}); n = std::max(n, (int)t.ops.size() + 6); t.ops.push_back({"save", {a, g.below(3)}}); }
                else if (w < 31) t.ops.push_back({"save", {a, g.below(3)}});
                else if (w < 32) t.ops.push_back({"remove", {b}});
                else
                {
                    t.ops.push_back({"start", {a}});
                    t.ops.push_back({"advance", {amount()}});
                    t.ops.push_back({"stop", {a}});
                    t.ops.push_back({"add", {b, a}});
                }
            }
            if (q2 && g.chance(0.2)) t.cfg["capacity"] = (i64)g.below(12000) + 1;
            int nf = q2 ? (int)g.below(8) : (int)g.below(5);
            for (int k = 0; k < nf; ++k)
            {
                sim::Fault f;
                f.op = (std::uint32_t)g.below(t.ops.size());
                f.count = g.chance(0.2) ? 1000 : 1;
                f.arg = (std::uint32_t)g.next();
                bool io = q2 && g.chance(0.75);
                if (io)
                {
                    std::vector<std::uint32_t> saves;
                    for (std::uint32_t o = 0; o < t.ops.size(); ++o) if (t.ops[o].kind == "save") saves.push_back(o);
                    if (!saves.empty()) f.op = saves[g.below(saves.size())];
                    f.nth = (std::uint32_t)g.below(3);
                    switch (g.below(10))
                    {
                        case 0: f.cls = sim::fc_write; f.kind = sim::fk_eio; break;
                        case 1: f.cls = sim::fc_write; f.kind = sim::fk_enospc; break;
                        case 2: f.cls = sim::fc_write; f.kind = sim::fk_short; break;
                        case 3: f.cls = sim::fc_write; f.kind = sim::fk_eintr; f.count = 1 + (std::uint32_t)g.below(3); break;
                        case 4: f.cls = sim::fc_write; f.kind = sim::fk_torn; break;
                        case 5: f.cls = sim::fc_open; f.kind = g.chance(0.5) ? sim::fk_eacces : sim::fk_emfile; f.nth = 0; break;
                        case 6: f.cls = sim::fc_close; f.kind = sim::fk_eio; f.nth = 0; break;
                        case 7: f.cls = sim::fc_write | sim::fc_open | sim::fc_close; f.kind = sim::fk_crash; f.count = 1; break;
                        case 8: f.cls = sim::fc_open; f.kind = sim::fk_enospc; f.nth = 0; break;
                        case 9: f.cls = sim::fc_alloc; f.kind = sim::fk_badalloc; f.nth = (std::uint32_t)g.below(60); f.count = 1; break;
                    }
                }
                else
                {
                    f.cls = sim::fc_clock;
                    f.nth = (std::uint32_t)g.below(4);
                    f.count = 1 + (std::uint32_t)g.below(3);
                    f.kind = g.chance(0.6) ? sim::fk_clockjump : sim::fk_stall;
                    f.arg = g.chance(0.5) ? (std::uint32_t)g.below(20000) : (std::uint32_t)g.below(200000000);
                    if (g.chance(0.1)) { f.cls = sim::fc_alloc; f.kind = sim::fk_badalloc; f.count = 1; }
                }
                t.faults.push_back(f);
            }
        }
    };
}  // namespace

int main(int argc, char** argv)
{
    return sim::main_(argc, argv, [](std::string const& p) -> sim::Harness* { return new H{p}; });
}
