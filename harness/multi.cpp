// Several simulated operating system processes sharing datasets on one simulated disk: D16.
// Every process is a real process with its own copy of LUE and HDF5; the simulator lets one of them advance at a
// time, from one storage call to the next, and kills some.
#include "lue/object/dataset.hpp"
#include "lue/data_model.hpp"
#include "simkit.hpp"
#include <csignal>
#include <memory>
#include <optional>
#include <sstream>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace ldm = lue::data_model;
namespace h5 = lue::hdf5;
using sim::Op;
using sim::Rng;
using sim::Run;
using sim::Trace;
using sim::violate;
using u64 = std::uint64_t;
using i32 = std::int32_t;

namespace {

    // ------------------------------------------------------------------ what is stored
    struct Phen
    {
        std::vector<u64> ids;
        std::vector<i32> v;
    };
    struct Content
    {
        bool exists = false;
        std::string description;
        std::map<std::string, Phen> phens;
        std::set<std::string> universes;
        std::string text() const
        {
            if (!exists) return "nothing";
            std::ostringstream s;
            s << description << ";";
            for (auto& u : universes) s << u << ",";
            for (auto& [n, p] : phens)
            {
                s << ";" << n << ":";
                for (auto x : p.ids) s << x << ",";
                s << "|";
                for (auto x : p.v) s << x << ",";
            }
            return s.str();
        }
    };
    std::vector<i32> values(u64 stream, u64 n)
    {
        Rng g{stream + 5};
        std::vector<i32> r(n);
        for (auto& x : r) x = (i32)g.below(1000000);
        return r;
    }
    std::string phen_name(u64 k) { return "p" + std::to_string(k); }
    std::string file_name(u64 f) { return f ? "/simfs/two.lue" : "/simfs/one.lue"; }

    enum Code : u64 {
        c_open_r, c_open_w, c_create, c_again, c_part, c_drop, c_read, c_read_part, c_add, c_overwrite, c_expand,
        c_universe, c_flush, c_write_part, c_exit, c_nr
    };
    char const* code_name[] = {"open for reading", "open for modification", "create", "open again", "hold on to a part",
        "drop", "read", "read through the held part", "add phenomenon", "overwrite values", "add objects", "add universe",
        "flush", "overwrite through the held part", "exit"};
    bool opens(u64 c) { return c <= c_create; }

    struct Request { u64 code = 0, x = 0, y = 0, z = 0, go = 0, quiet = 0; };   // code c_nr: continue for go storage calls
    struct Reply
    {
        i32 kind = 0;        // 0: blocked before a storage call, 1: done
        i32 cls = 0;
        i32 ok = 0;
        i32 fds = 0;
        u64 hash = 0;
        char text[400] = {};
    };

    bool transfer(int fd, void* p, std::size_t n, bool out)
    {
        auto* b = (char*)p;
        while (n)
        {
            ssize_t k = out ? syscall(SYS_write, fd, b, n) : syscall(SYS_read, fd, b, n);
            if (k < 0 && errno == EINTR) continue;
            if (k <= 0) return false;
            b += k;
            n -= (std::size_t)k;
        }
        return true;
    }

    // ------------------------------------------------------------------ a process
    int channel = -1;
    u64 budget = 0;
    void block(std::uint32_t cls)
    {
        if (budget) { --budget; return; }
        int const e = errno;
        Reply r;
        r.cls = (i32)cls;
        Request q;
        if (!transfer(channel, &r, sizeof r, true) || !transfer(channel, &q, sizeof q, false)) _exit(0);
        budget = q.go - 1;
        errno = e;
    }
    struct Process
    {
        std::optional<ldm::Dataset> ds, second;
        std::optional<ldm::same_shape::Value> part;
        std::string path;
        unsigned flags = 0;

        ldm::Dataset& any() { return ds ? *ds : *second; }
        static Content content(ldm::Dataset const& d)
        {
            Content c;
            c.exists = true;
            c.description = d.description();
            for (auto& n : d.universes().names()) c.universes.insert(n);
            for (auto& n : d.phenomena().names())
            {
                auto const& ph = d.phenomena()[n];
                auto& p = c.phens[n];
                p.ids.resize(ph.object_id().nr_arrays());
                if (!p.ids.empty()) ph.object_id().read(p.ids.data());
                auto const& props = ph.property_sets()["s"].properties().collection<ldm::same_shape::Properties>();
                auto const& v = props["v"].value();
                p.v.resize(v.nr_arrays());
                if (!p.v.empty()) v.read(p.v.data());
            }
            return c;
        }
        static ldm::same_shape::Value& value(ldm::Dataset& d, u64 k)
        {
            return d.phenomena()[phen_name(k)].property_sets()["s"].properties().collection<ldm::same_shape::Properties>()["v"].value();
        }
        void perform(Request const& q, Reply& r)
        {
            std::string t;
            switch (q.code)
            {
                case c_open_r:
                    path = file_name(q.x);
                    flags = H5F_ACC_RDONLY;
                    if (q.y) ds.emplace(ldm::open_dataset(path)); else ds.emplace(ldm::open_dataset(path, flags));
                    break;
                case c_open_w:
                    path = file_name(q.x);
                    flags = H5F_ACC_RDWR;
                    ds.emplace(ldm::open_dataset(path, flags));
                    break;
                case c_create:
                    path = file_name(q.x);
                    flags = H5F_ACC_RDWR;
                    ds.emplace(ldm::create_dataset(path, "v" + std::to_string(q.y)));
                    break;
                case c_again: second.emplace(ldm::open_dataset(path, flags)); break;
                case c_part: part.emplace(value(any(), q.x)); break;
                case c_drop:
                    if (q.x & 1) ds.reset();
                    if (q.x & 2) second.reset();
                    if (q.x & 4) part.reset();
                    break;
                case c_read: t = content(any()).text(); break;
                case c_read_part:
                {
                    std::vector<i32> v(part->nr_arrays());
                    if (!v.empty()) part->read(v.data());
                    for (auto x : v) t += std::to_string(x) + ",";
                    break;
                }
                case c_add:
                {
                    auto& ph = any().add_phenomenon(phen_name(q.x));
                    auto& v = ph.property_sets().add("s").properties().add("v", h5::native_int32).value();
                    auto const ids = values(q.z + 1, q.y);
                    std::vector<u64> id(ids.begin(), ids.end());
                    auto const vals = values(q.z, q.y);
                    ph.object_id().expand(q.y);
                    v.expand(q.y);
                    if (q.y) { ph.object_id().write(id.data()); v.write(vals.data()); }
                    break;
                }
                case c_overwrite:
                {
                    auto const vals = values(q.z, q.y);
                    if (q.y) value(any(), q.x).write(vals.data());
                    break;
                }
                case c_write_part:
                {
                    auto const vals = values(q.z, q.y);
                    if (q.y) part->write(vals.data());
                    break;
                }
                case c_expand:
                {
                    auto& ph = any().phenomena()[phen_name(q.x)];
                    auto& v = value(any(), q.x);
                    auto const n = ph.object_id().nr_arrays();
                    auto const ids = values(q.z + 1, q.y);
                    std::vector<u64> id(ids.begin(), ids.end());
                    auto const vals = values(q.z, q.y);
                    ph.object_id().expand(q.y);
                    v.expand(q.y);
                    for (u64 i = 0; i < q.y; ++i)
                    {
                        ph.object_id().write(ldm::Index{n + i}, &id[i]);
                        v.write(ldm::Index{n + i}, &vals[i]);
                    }
                    break;
                }
                case c_universe: any().add_universe("u" + std::to_string(q.x)); break;
                case c_flush: any().flush(); break;
                case c_exit:
                    // as a program that ends with handles in static memory: HDF5 closes what is open
                    std::exit(55);
            }
            r.hash = sim::hash_str(t);
            std::strncpy(r.text, t.c_str(), sizeof r.text - 1);
        }
        [[noreturn]] void serve()
        {
            sim::on_io_event = block;
            for (;;)
            {
                Request q;
                if (!transfer(channel, &q, sizeof q, false)) _exit(0);
                budget = 0;
                sim::sim_set_faults(!q.quiet);
                Reply r;
                r.kind = 1;
                try
                {
                    perform(q, r);
                    r.ok = 1;
                }
                catch (std::exception const& e)
                {
                    std::strncpy(r.text, e.what(), sizeof r.text - 1);
                    if (opens(q.code)) ds.reset();
                }
                r.fds = sim::fs_open_descriptors();
                if (!transfer(channel, &r, sizeof r, true)) _exit(0);
            }
        }
    };

    // ------------------------------------------------------------------ the simulator's view
    constexpr int max_actors = 4;
    struct Actor
    {
        pid_t pid = 0;
        int fd = -1;
        bool busy = false;
        Request q;
        bool contended = false;     // during the running command another process had or wanted the dataset
        u64 file = 0;
        bool modify = false;
        enum { none, opening, established, closing } state = none;
        unsigned held = 0;          // 1 dataset, 2 second dataset, 4 part
        u64 part_of = 0;
        std::uint32_t f0 = 0;
        i32 cls = 0;
        u64 since = 0;
        bool passed_on = false;     // while closing: another process established a session already
    };
    struct File
    {
        Content committed;             // what the last session for modification left, when it released everything
        std::vector<Content> pending;  // what the current one recorded, oldest first
        bool doubt = false;            // a process died or failed while modifying
        std::set<std::string> allowed; // with doubt: what can be found other than an error
        std::vector<unsigned char> snapshot;
        bool has_snapshot = false;
    };

    struct H: sim::Harness
    {
        Actor actors[max_actors];
        File files[2];
        int n = 0;
        u64 serial = 0, commands = 0;

        std::vector<std::string> profiles() const override { return {"D16"}; }

        // ---------------------------------------------------------------- processes
        void start(int i)
        {
            int s[2];
            if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) violate("harness", "socketpair");
            pid_t const main_pid = (pid_t)syscall(SYS_getpid);
            pid_t pid = fork();
            if (pid < 0) violate("harness", "fork");
            if (pid == 0)
            {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                if ((pid_t)syscall(SYS_getppid) != main_pid) _exit(0);
                syscall(SYS_close, s[0]);
                for (auto& a : actors) if (a.fd >= 0) syscall(SYS_close, a.fd);
                channel = s[1];
                sim::set_actor(i);
                auto* p = new Process;
                p->serve();
            }
            syscall(SYS_close, s[1]);
            actors[i] = Actor{};
            actors[i].pid = pid;
            actors[i].fd = s[0];
        }
        void begin(Run& run) override
        {
            n = std::min<int>(max_actors, std::max<int>(1, (int)run.trace.c("actors", 2)));
            for (int i = 0; i < n; ++i) start(i);
        }
        int reap(int i)
        {
            int st = 0;
            while (waitpid(actors[i].pid, &st, 0) < 0 && errno == EINTR) {}
            syscall(SYS_close, actors[i].fd);
            actors[i].fd = -1;
            sim::release_locks(i);
            return st;
        }

        // ---------------------------------------------------------------- rules
        bool conflict(Actor const& a, Actor const& b) const
        {
            return a.state != Actor::none && b.state != Actor::none && a.file == b.file && (a.modify || b.modify);
        }
        void note_contention(int i)
        {
            auto& a = actors[i];
            for (int k = 0; k < n; ++k)
            {
                if (k == i || !conflict(a, actors[k])) continue;
                actors[k].contended = true;
                a.contended = true;
            }
        }
        void snapshot_state()
        {
            u64 h = 77;
            for (int i = 0; i < n; ++i)
                h = sim::mix(h, (u64)actors[i].state * 64 + actors[i].file * 32 + actors[i].modify * 16 + actors[i].held + (actors[i].busy ? 4096 + (u64)actors[i].cls * 8192 + actors[i].q.code * 1000000000ull : 0));
            h = sim::mix(h, files[0].doubt * 2 + files[1].doubt);
            sim::state(h);
        }
        std::string who(int i) const
        {
            auto& a = actors[i];
            return "process " + std::to_string(i) + " (" + code_name[a.q.code] + ", " + file_name(a.file) + ")";
        }
        Content& newest(File& f) { return f.pending.back(); }
        // the process will not have the dataset anymore; it does not complete what it was doing
        void died(int i)
        {
            auto& a = actors[i];
            if (a.state != Actor::none && a.modify && !(files[a.file].doubt && a.q.code != c_create))
            {
                auto& f = files[a.file];
                // whether it had it at all is unknown while it was opening or closing
                if (a.state == Actor::established)
                {
                    f.allowed.clear();
                    f.allowed.insert(f.committed.text());
                    for (auto& c : f.pending) f.allowed.insert(c.text());
                    // a change in progress may have been completed
                    Content c = newest(f);
                    if (a.busy && apply(a.q, a, c)) f.allowed.insert(c.text());
                    f.doubt = true;
                    f.pending.clear();
                }
                else if (a.state == Actor::opening && a.q.code == c_create)
                {
                    Content c;
                    apply(a.q, a, c);
                    f.allowed.insert(c.text());
                    f.doubt = true;
                }
                else if (a.state == Actor::opening && !f.doubt)
                {
                    bool other = false;   // someone else who is certain to have it
                    for (int k = 0; k < n; ++k) if (k != i && actors[k].file == a.file && actors[k].state == Actor::established) other = true;
                    if (!other) { f.allowed = {f.committed.text()}; f.doubt = true; }
                }
                else if (a.state == Actor::closing && !a.passed_on)
                {
                    f.allowed = closing_allowed[i];
                    f.allowed.insert(f.committed.text());
                    f.doubt = true;
                }
                if (f.doubt) sim::probe("died while modifying");
            }
            for (int k = 0; k < n; ++k) if (k != i && conflict(a, actors[k])) actors[k].contended = true;
            a.state = Actor::none;
            a.busy = false;
            sim::probe("process died");
        }
        std::set<std::string> closing_allowed[max_actors];

        // what a successful request does to what is stored; false when nothing
        bool apply(Request const& q, Actor const& a, Content& c)
        {
            switch (q.code)
            {
                case c_create: c = Content{}; c.exists = true; c.description = "v" + std::to_string(q.y); return true;
                case c_add:
                {
                    auto const ids = values(q.z + 1, q.y);
                    c.phens[phen_name(q.x)] = Phen{{ids.begin(), ids.end()}, values(q.z, q.y)};
                    return true;
                }
                case c_overwrite: c.phens[phen_name(q.x)].v = values(q.z, q.y); return true;
                case c_write_part: c.phens[phen_name(a.part_of)].v = values(q.z, q.y); return true;
                case c_expand:
                {
                    auto& p = c.phens[phen_name(q.x)];
                    for (auto x : values(q.z + 1, q.y)) p.ids.push_back((u64)x);
                    for (auto x : values(q.z, q.y)) p.v.push_back(x);
                    return true;
                }
                case c_universe: c.universes.insert("u" + std::to_string(q.x)); return true;
            }
            return false;
        }
        // what the process must find; reading sessions see what was committed when they began, which cannot change
        Content const& visible(Actor const& a) { auto& f = files[a.file]; return a.modify ? newest(f) : f.committed; }

        void close_begins(int i)
        {
            auto& a = actors[i];
            a.state = Actor::closing;
            a.passed_on = false;
            if (a.modify && files[a.file].doubt) closing_allowed[i] = files[a.file].allowed;
            else if (a.modify)
            {
                auto& f = files[a.file];
                closing_allowed[i].clear();
                closing_allowed[i].insert(f.committed.text());
                for (auto& c : f.pending) closing_allowed[i].insert(c.text());
                f.committed = newest(f);
                f.pending.clear();
                f.has_snapshot = false;
            }
        }
        void established(int i)
        {
            auto& a = actors[i];
            auto& f = files[a.file];
            for (int k = 0; k < n; ++k)
            {
                if (k == i) continue;
                auto& b = actors[k];
                if (b.state == Actor::established && conflict(a, b))
                    violate("shared-while-modified", who(i) + " succeeded while process " + std::to_string(k) + " has the dataset open for " + (b.modify ? "modification" : "reading"));
                if (b.state == Actor::closing && b.file == a.file) b.passed_on = true;
            }
            a.state = Actor::established;
            a.held = 1;
            if (a.q.code == c_create) f.doubt = false;
            else if (a.modify && f.doubt)
            {
                if (f.allowed.size() == 1 && f.allowed.count(f.committed.text())) f.doubt = false;
                else f.pending.assign(1, f.committed);
                sim::probe(f.doubt ? "opened for modification after a process died" : "went on after a process died");
                if (f.doubt) return;
            }
            if (!f.committed.exists && !f.doubt && a.q.code != c_create)
                violate("opened-nothing", who(i) + " succeeded, but there is no dataset");
            if (a.modify)
            {
                Content c = f.committed;
                apply(a.q, a, c);
                f.pending.assign(1, c);
                sim::probe("session for modification");
            }
            else
            {
                int readers = 0;
                for (int k = 0; k < n; ++k) if (actors[k].state == Actor::established && actors[k].file == a.file && !actors[k].modify) ++readers;
                sim::probe(readers > 2 ? "3+ readers" : readers > 1 ? "2 readers" : "1 reader");
            }
        }
        void done(int i, Reply const& r)
        {
            auto& a = actors[i];
            auto& f = files[a.file];
            a.busy = false;
            ++commands;
            bool const faulty = sim::faults_fired() != a.f0;
            std::string const why = std::string(": ") + r.text;
            sim::log_event(sim::mix(a.q.code * 4 + (u64)r.ok, r.hash));
            switch (a.q.code)
            {
                case c_open_r: case c_open_w: case c_create:
                    if (r.ok) established(i);
                    else
                    {
                        sim::probe(a.contended ? "refused: in use" : faulty ? "refused: fault" : f.doubt ? "refused: left by a dead process" : "refused: nothing there");
                        bool const expected = a.contended || faulty || (a.q.code != c_create && (f.doubt || !f.committed.exists));
                        a.state = Actor::none;
                        if (a.q.code == c_create)
                        {
                            f.doubt = true;
                            f.committed = Content{};
                            f.has_snapshot = false;
                        }
                        if (!expected)
                            violate("not-released", who(i) + " failed although no other process has the dataset open in a conflicting way" + why);
                        if (r.fds != 0) violate("kept-open", who(i) + " failed but keeps " + std::to_string(r.fds) + " file(s) open");
                    }
                    break;
                case c_again:
                    if (r.ok) a.held |= 2;
                    else if (!faulty && !doubtful(a)) violate("not-shared", who(i) + " failed" + why);
                    break;
                case c_part:
                    if (r.ok) a.held |= 4;
                    else if (!faulty && !doubtful(a)) violate("not-usable", who(i) + " failed" + why);
                    break;
                case c_drop:
                    a.held &= ~(unsigned)a.q.x;
                    if (!a.held)
                    {
                        a.state = Actor::none;
                        if (r.fds != 0) violate("not-released", who(i) + ": " + std::to_string(r.fds) + " file(s) remain open after everything was released");
                        if (a.modify && !f.doubt && !a.passed_on)
                        {
                            bool other = false;
                            for (int k = 0; k < n; ++k) if (k != i && actors[k].state != Actor::none && actors[k].file == a.file && actors[k].modify) other = true;
                            if (!other) { f.snapshot = sim::fs_content(file_name(a.file)); f.has_snapshot = true; }
                        }
                    }
                    break;
                case c_read: case c_read_part:
                {
                    if (!r.ok)
                    {
                        if (!faulty && !doubtful(a)) violate("not-readable", who(i) + " failed" + why);
                        break;
                    }
                    if (f.doubt)
                    {
                        if (a.q.code == c_read)
                        {
                            bool ok = false;
                            for (auto& t : f.allowed) ok |= sim::hash_str(t) == r.hash;
                            sim::probe("read after a process died");
                            if (!ok) violate("half-done", who(i) + " sees what was never stored as a whole, left by a process that died: " + r.text);
                        }
                        break;
                    }
                    std::string want;
                    if (a.q.code == c_read) want = visible(a).text();
                    else for (auto x : visible(a).phens.at(phen_name(a.part_of)).v) want += std::to_string(x) + ",";
                    sim::probe(a.modify ? "read while modifying" : "read");
                    if (sim::hash_str(want) != r.hash) violate("wrong-content", who(i) + " sees " + r.text + " instead of " + want);
                    break;
                }
                default:
                    if (!r.ok)
                    {
                        if (!faulty && !f.doubt) violate("not-modifiable", who(i) + " failed" + why);
                        break;
                    }
                    {
                        Content c = newest(f);
                        if (!f.doubt && apply(a.q, a, c)) f.pending.push_back(c);
                        if (a.q.code == c_flush) sim::probe("flush");
                    }
                    break;
            }
        }
        bool doubtful(Actor const& a) { return files[a.file].doubt; }

        // lets the process continue for a number of storage calls
        void advance(int i, u64 calls)
        {
            auto& a = actors[i];
            if (!a.busy || calls == 0) return;
            Request q;
            q.code = c_nr;
            q.go = calls;
            if (!transfer(a.fd, &q, sizeof q, true)) { ended(i); return; }
            receive(i);
        }
        void receive(int i)
        {
            auto& a = actors[i];
            Reply r;
            if (!transfer(a.fd, &r, sizeof r, false)) { ended(i); return; }
            if (r.kind == 0) { a.cls = r.cls; snapshot_state(); return; }
            done(i, r);
            snapshot_state();
        }
        // the process is gone, without having been killed by the simulator
        void ended(int i)
        {
            auto& a = actors[i];
            int st = reap(i);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 55 && a.q.code == c_exit)
            {
                a.busy = false;
                a.held = 0;
                a.state = Actor::none;
                sim::probe("exit");
            }
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) died(i);
            else violate("died", who(i) + " died: " + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st))));
            start(i);
            snapshot_state();
        }
        void request(int i, Request const& q)
        {
            auto& a = actors[i];
            a.q = q;
            a.busy = true;
            a.contended = false;
            a.f0 = sim::faults_fired();
            if (opens(q.code))
            {
                a.file = q.x;
                a.modify = q.code != c_open_r;
                a.state = Actor::opening;
                a.held = 0;
            }
            if (q.code == c_part) a.part_of = q.x;
            if (q.code == c_drop && (a.held & ~(unsigned)q.x) == 0) close_begins(i);
            if (q.code == c_exit && a.state == Actor::established) close_begins(i);
            note_contention(i);
            if (!transfer(a.fd, const_cast<Request*>(&q), sizeof q, true)) { ended(i); return; }
            receive(i);
        }

        void step(Run& run, Op const& op) override
        {
            int const i = (int)(op.arg(0) % (u64)n);
            auto& a = actors[i];
            run.outcome(sim::oc_ok);
            if (op.kind == "run") { advance(i, op.arg(1)); return; }
            if (op.kind == "kill")
            {
                kill(a.pid, SIGKILL);
                reap(i);
                died(i);
                start(i);
                return;
            }
            if (op.kind == "recover")
            {
                u64 const k = op.arg(1) % 2;
                auto& f = files[k];
                for (int j = 0; j < n; ++j) if (actors[j].state != Actor::none && actors[j].file == k) return;
                if (!f.doubt) return;
                if (f.has_snapshot) sim::fs_put(file_name(k), f.snapshot);
                else { sim::fs_remove(file_name(k)); f.committed = Content{}; }
                f.doubt = false;
                sim::probe("restored a copy");
                return;
            }
            // cmd
            if (a.busy) advance(i, 1000000000ull);
            if (a.busy) return;
            Request q;
            q.code = op.arg(1) % c_nr;
            u64 const x = op.arg(2), y = op.arg(3), z = op.arg(4);
            bool const open = a.state == Actor::established, handle = open && (a.held & (a.modify ? 1 : 3));   // a second handle does not follow what another one adds
            auto pick = [&](Content const& c) -> std::string {
                if (c.phens.empty()) return "";
                auto it = c.phens.begin();
                std::advance(it, (std::ptrdiff_t)(x % c.phens.size()));
                return it->first;
            };
            switch (q.code)
            {
                case c_open_r: case c_open_w: case c_create:
                {
                    if (open) return;
                    q.x = x % (u64)run.trace.c("files", 1);
                    auto& f = files[q.x];
                    bool any = false;
                    for (int k = 0; k < n; ++k) any |= actors[k].state != Actor::none && actors[k].file == q.x;
                    // HDF5 empties the file before it tries to lock it: creating over a dataset in use is excluded,
                    // and opening one while it is created anew
                    if (q.code == c_create && any) return;
                    for (int k = 0; k < n; ++k) if (actors[k].state == Actor::opening && actors[k].file == q.x && actors[k].q.code == c_create && q.code == c_open_w) return;
                    q.y = q.code == c_create ? ++serial : y % 2;
                    if (q.code == c_create)
                    {
                        if (!f.doubt) f.allowed = {f.committed.text()};
                        f.allowed.insert(Content{}.text());
                        f.doubt = true;     // until it succeeds
                        f.committed = Content{};
                        f.has_snapshot = false;
                        f.pending.clear();
                    }
                    break;
                }
                case c_again: if (!handle || (a.held & 2) || !(a.held & 1)) return; break;
                case c_part:
                {
                    if (!handle || (a.held & 4) || doubtful(a)) return;
                    auto const p = pick(visible(a));
                    if (p.empty()) return;
                    q.x = std::stoull(p.substr(1));
                    break;
                }
                case c_drop:
                    if (!open) return;
                    q.x = a.held & (1 + x % 7);
                    if (x % 3 == 0) q.x = a.held;
                    if (!q.x) return;
                    break;
                case c_read: if (!handle) return; break;
                case c_read_part: if (!open || !(a.held & 4) || doubtful(a)) return; break;
                case c_add:
                    if (!handle || !a.modify) return;
                    if (newest(files[a.file]).phens.size() > 5) return;
                    q.x = ++serial;
                    q.y = y % 9;
                    q.z = z;
                    break;
                case c_overwrite: case c_expand:
                {
                    if (!handle || !a.modify) return;
                    auto& c = newest(files[a.file]);
                    auto const p = pick(c);
                    if (p.empty()) return;
                    q.x = std::stoull(p.substr(1));
                    q.y = q.code == c_expand ? 1 + y % (y % 16 == 0 ? 300 : 9) : c.phens[p].v.size();
                    q.z = z;
                    break;
                }
                case c_write_part:
                    if (!open || !a.modify || !(a.held & 4)) return;
                    q.y = newest(files[a.file]).phens[phen_name(a.part_of)].v.size();
                    q.z = z;
                    break;
                case c_universe: if (!handle || !a.modify) return; q.x = ++serial; break;
                case c_flush: if (!handle || !a.modify) return; break;
                case c_exit: break;
            }
            // nothing is known about a dataset someone died on: not to be built upon
            if (!opens(q.code) && files[a.file].doubt && q.code != c_drop && q.code != c_exit && q.code != c_flush && q.code != c_read && q.code != c_again) return;
            bool const over = q.code == c_create && sim::fs_exists(file_name(q.x));
            request(i, q);
            if (over) advance(i, 1000000000ull);
        }
        void finish(Run& run) override
        {
            for (bool more = true; more;)
            {
                more = false;
                for (int i = 0; i < n; ++i) if (actors[i].busy) { advance(i, 7); more = true; }
            }
            for (int i = 0; i < n; ++i)
                if (actors[i].state == Actor::established)
                {
                    Request q;
                    q.code = c_drop;
                    q.x = actors[i].held;
                    request(i, q);
                    while (actors[i].busy) advance(i, 1000000);
                }
            // everything is released: everyone can read everything that was recorded, at the same time
            for (u64 k = 0; k < (u64)run.trace.c("files", 1); ++k)
            {
                if (files[k].doubt || !files[k].committed.exists) continue;
                for (u64 code : {(u64)c_open_r, (u64)c_read, (u64)c_drop})
                    for (int i = 0; i < n; ++i)
                    {
                        Request q;
                        q.code = code;
                        q.quiet = 1;
                        q.x = code == c_drop ? 1 : k;
                        request(i, q);
                        while (actors[i].busy) advance(i, 1000000);
                    }
                Request q;
                q.code = c_open_w;
                q.quiet = 1;
                q.x = k;
                request(0, q);
                while (actors[0].busy) advance(0, 1000000);
            }
            for (int i = 0; i < n; ++i) { kill(actors[i].pid, SIGKILL); reap(i); }
        }
        std::string describe(Op const& op) const override
        {
            std::ostringstream s;
            if (op.kind == "run") s << "process " << op.arg(0) << " continues for " << op.arg(1) << " storage calls";
            else if (op.kind == "kill") s << "process " << op.arg(0) << " is killed and a new one takes its place";
            else if (op.kind == "recover") s << "a copy of dataset " << op.arg(1) % 2 << " is put back, if someone died on it";
            else s << "process " << op.arg(0) << ": " << code_name[op.arg(1) % c_nr] << " (" << op.arg(2) << ", " << op.arg(3) << ", " << op.arg(4) << ")";
            return s.str();
        }

        void generate(Rng& g, Trace& t) override
        {
            int const k = g.chance(0.3) ? 2 : g.chance(0.7) ? 3 : 4;
            t.cfg["actors"] = k;
            int const nf = g.chance(0.2) ? 2 : 1;
            t.cfg["files"] = nf;
            auto cmd = [&](u64 a, u64 c) { t.ops.push_back({"cmd", {a, c, g.below(1000), g.below(1000), g.next() % 1000000}}); };
            auto whole = [&](u64 a) { t.ops.push_back({"run", {a, 1000000}}); };
            // something to share
            if (g.chance(0.95))
                for (int f = 0; f < nf; ++f)
                {
                    t.ops.push_back({"cmd", {0, c_create, (u64)f, 0, 0}});
                    whole(0);
                    for (u64 j = g.below(3); j-- > 0;) { cmd(0, c_add); whole(0); }
                    if (g.chance(0.8)) { t.ops.push_back({"cmd", {0, c_drop, 0, 0, 0}}); if (g.chance(0.8)) whole(0); }
                }
            int const len = (int)(6 + g.below(g.chance(0.2) ? 120 : 50));
            double const interleave = g.chance(0.3) ? 0.1 : g.chance(0.5) ? 0.5 : 0.9;
            double const writers = g.chance(0.3) ? 0.05 : g.chance(0.5) ? 0.3 : 0.6;
            double const deaths = g.chance(0.5) ? 0 : g.chance(0.5) ? 0.02 : 0.08;
            // what a process tends to do next, as far as can be told
            std::vector<int> st((std::size_t)k, 0);
            for (int i = 0; i < len; ++i)
            {
                u64 const a = g.below((u64)k);
                if (g.chance(deaths)) { t.ops.push_back({"kill", {a}}); st[a] = 0; if (g.chance(0.5)) t.ops.push_back({"recover", {a, g.below(2)}}); continue; }
                if (deaths > 0 && st[a] == 2 && g.chance(0.15))
                {
                    // someone dies, often right after or in the middle of writing to the disk, and others look at what remains
                    if (g.chance(0.7)) cmd(a, g.chance(0.6) ? c_flush : c_drop);
                    t.ops.push_back({"run", {a, g.below(g.chance(0.5) ? 12 : 60)}});
                    t.ops.push_back({"kill", {a}});
                    st[a] = 0;
                    u64 const b = g.below((u64)k);
                    if (st[b] == 0) { bool const w = g.chance(0.2); cmd(b, w ? c_open_w : c_open_r); whole(b); cmd(b, c_read); whole(b); st[b] = w ? 2 : 1; }
                    continue;
                }
                if (g.chance(0.04)) { t.ops.push_back({"recover", {a, g.below(2)}}); continue; }
                if (st[a] == 0)
                {
                    bool const w = g.chance(writers);
                    cmd(a, w ? (g.chance(0.04) ? c_create : c_open_w) : c_open_r);
                    st[a] = w ? 2 : 1;
                }
                else
                {
                    static u64 const rd[] = {c_read, c_read, c_read, c_drop, c_drop, c_part, c_read_part, c_again, c_exit};
                    static u64 const wr[] = {c_read, c_drop, c_drop, c_drop, c_part, c_again, c_add, c_add, c_overwrite, c_overwrite, c_expand, c_expand, c_universe, c_flush, c_write_part, c_exit};
                    u64 const c = st[a] == 1 ? rd[g.below(9)] : wr[g.below(16)];
                    if (c == c_exit && g.chance(0.7)) continue;
                    cmd(a, c);
                    if (c == c_drop || c == c_exit) st[a] = 0;
                    if (g.chance(0.2)) st[a] = 0;
                }
                if (!g.chance(interleave)) whole(a);
                else
                    for (u64 j = g.below(4); j-- > 0;)
                        t.ops.push_back({"run", {g.chance(0.6) ? a : g.below((u64)k), g.chance(0.7) ? 1 + g.below(4) : 1 + g.below(60)}});
            }
            for (u64 j = g.below(4); j-- > 0;)
            {
                sim::Fault f;
                f.op = (std::uint32_t)g.below(t.ops.size());
                f.arg = (std::uint32_t)g.next();
                f.nth = (std::uint32_t)g.below(g.chance(0.5) ? 4 : 60);
                switch (g.below(6))
                {
                    case 0: f.cls = sim::fc_open; f.kind = g.chance(0.5) ? sim::fk_eacces : sim::fk_emfile; f.nth = (std::uint32_t)g.below(3); break;
                    case 1: f.cls = sim::fc_write; f.kind = sim::fk_short; f.count = 1 + (std::uint32_t)g.below(3); break;
                    case 2: f.cls = sim::fc_read; f.kind = sim::fk_short; f.count = 1 + (std::uint32_t)g.below(3); break;
                    case 3: f.cls = sim::fc_read | sim::fc_write; f.kind = sim::fk_eintr; f.count = 1 + (std::uint32_t)g.below(3); break;
                    case 4:
                        if (deaths == 0) { f.cls = sim::fc_read; f.kind = sim::fk_eintr; break; }
                        f.cls = sim::fc_write | (g.chance(0.3) ? sim::fc_lock | sim::fc_close | sim::fc_trunc | sim::fc_open : 0); f.kind = sim::fk_crash; break;
                    case 5: f.cls = sim::fc_read | sim::fc_write | sim::fc_lock; f.kind = sim::fk_stall; f.arg = (std::uint32_t)g.below(100000); break;
                }
                t.faults.push_back(f);
            }
        }
    };
}  // namespace

int main(int argc, char** argv)
{
    return sim::main_(argc, argv, [](std::string const&) -> sim::Harness* { return new H{}; });
}
