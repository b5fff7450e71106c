#include "simkit.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <new>
#include <nlohmann/json.hpp>
#include <sstream>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_set>

namespace sim { bool stuck_library_is_crash = false; }

namespace sim {

    char const* fault_kind_name[fk_nr] = {"eio", "enospc", "short_transfer", "eintr", "torn_write", "crash",
        "eacces", "emfile", "ewouldblock", "bad_alloc", "clock_jump", "stall",
        "pick_random", "pick_last", "slow_locality", "parcel_delay", "preempt"};

    namespace {

        constexpr int max_files = 48;
        constexpr std::size_t file_max = 160u << 20;
        constexpr int max_fds = 256;
        constexpr int fd_base = 0x20000000;
        constexpr int max_ops = 4096;
        constexpr int max_faults = 64;
        constexpr int max_states = 8192;
        constexpr int max_probes = 256;
        constexpr std::size_t scratch_size = 1u << 20;

        struct SimFile
        {
            char name[200];
            std::int32_t exists;    // has a directory entry
            std::int32_t used;      // slot in use (entry or open descriptors)
            std::uint64_t size;
            std::uint64_t high;     // highest byte ever written in this run (for clearing)
            std::int32_t lock_ex;   // actor+1 holding exclusive lock
            std::int32_t lock_sh[8]; // per actor count of shared locks
            std::int32_t ex_cnt;
        };

        struct Shared
        {
            SimFile files[max_files];
            std::uint64_t mono_ns;
            std::int64_t wall_off_ns;
            std::uint64_t events;
            std::uint64_t events_by_class[16];
            std::uint64_t write_calls;
            std::uint64_t hash;
            std::uint64_t capacity;
            // faults
            struct FS { std::uint32_t seen, fired; } fstate[max_faults];
            std::uint32_t fired_effective, fired_total, fired_reading, fired_opening;
            std::uint64_t fired_kind[fk_nr];
            // outcomes
            struct OC { std::int32_t code; std::uint16_t died; std::uint16_t restart; std::uint64_t value; } oc[max_ops];
            std::uint32_t cur_op;
            std::int32_t finished;
            std::int32_t crashed;
            std::uint32_t library_deaths;
            std::int32_t death;
            std::int32_t violated;
            char vcls[96];
            char vtext[6000];
            std::uint32_t nstates;
            std::uint64_t states[max_states];
            struct PR { char name[48]; std::uint64_t n; } probes[max_probes];
            std::uint32_t nprobes;
            unsigned char scratch[scratch_size];
        };

        Shared* sh = nullptr;
        unsigned char* arena = nullptr;

        struct SimFd { bool used = false; int file = -1; std::uint64_t off = 0; int flags = 0; int lock = 0; int lock_actor = 0; };
        SimFd fds[max_fds];
        int actor_ = 0;
        bool active = false;          // inside a simulated run (child)
        bool faults_on = true;
        Trace const* cur_trace = nullptr;

        template<typename F>
        F real(char const* name)
        {
            void* p = dlsym(RTLD_NEXT, name);
            return reinterpret_cast<F>(p);
        }

        unsigned char* data(int f) { return arena + (std::size_t)f * file_max; }

        bool is_sim(char const* p) { return p && std::strncmp(p, "/simfs", 6) == 0 && (p[6] == '/' || p[6] == 0); }
        bool is_simfd(int fd) { return fd >= fd_base && fd < fd_base + max_fds; }
        SimFd* fdp(int fd)
        {
            auto* p = &fds[fd - fd_base];
            return p->used ? p : nullptr;
        }
        std::string canon(char const* p)
        {
            std::string s{p}, r;
            for (char c : s)
            {
                if (c == '/' && !r.empty() && r.back() == '/') continue;
                r += c;
            }
            if (r.size() > 1 && r.back() == '/') r.pop_back();
            return r;
        }
        int find_file(std::string const& n)
        {
            for (int i = 0; i < max_files; ++i)
                if (sh->files[i].used && sh->files[i].exists && n == sh->files[i].name) return i;
            return -1;
        }
        int new_file(std::string const& n)
        {
            if (n.size() >= sizeof(SimFile::name)) return -1;
            for (int i = 0; i < max_files; ++i)
                if (!sh->files[i].used)
                {
                    auto high = sh->files[i].high;
                    std::memset(data(i), 0, high);
                    std::memset(&sh->files[i], 0, sizeof(SimFile));
                    std::strcpy(sh->files[i].name, n.c_str());
                    sh->files[i].exists = 1;
                    sh->files[i].used = 1;
                    return i;
                }
            return -1;
        }
        bool file_open_here(int f)
        {
            for (auto& d : fds)
                if (d.used && d.file == f) return true;
            return false;
        }
        void maybe_free(int f)
        {
            if (!sh->files[f].exists && !file_open_here(f)) sh->files[f].used = 0;
        }
        std::uint64_t total_size()
        {
            std::uint64_t t = 0;
            for (int i = 0; i < max_files; ++i)
                if (sh->files[i].used) t += sh->files[i].size;
            return t;
        }

        std::uint32_t masked = 0;
        int cls_index(std::uint32_t cls) { return __builtin_ctz(cls); }

        bool applicable(std::uint32_t kind, std::uint32_t cls)
        {
            switch (kind)
            {
                case fk_eio: return cls & (fc_read | fc_write | fc_trunc | fc_open | fc_close | fc_stat | fc_unlink | fc_sync | fc_seek | fc_lib);
                case fk_enospc: return cls & (fc_write | fc_trunc | fc_open);
                case fk_short: return cls & (fc_read | fc_write);
                case fk_eintr: return cls & (fc_read | fc_write);
                case fk_torn: return cls & fc_write;
                case fk_crash: return cls & (fc_read | fc_write | fc_trunc | fc_open | fc_close | fc_stat | fc_unlink | fc_lock | fc_sync);
                case fk_eacces: return cls & (fc_open | fc_unlink | fc_stat);
                case fk_emfile: return cls & fc_open;
                case fk_ewouldblock: return cls & fc_lock;
                case fk_badalloc: return cls & fc_alloc;
                case fk_clockjump: case fk_stall: return !(cls & (fc_msg | fc_sched | fc_yield));
                case fk_pick: case fk_last: case fk_slow: return cls & fc_sched;
                case fk_delay: return cls & fc_msg;
                case fk_preempt: return cls & fc_yield;
                default: return false;
            }
        }
        bool benign(std::uint32_t k) { return k == fk_short || k == fk_eintr || k == fk_clockjump || k == fk_stall || k >= fk_pick; }

        // A third party library may die of a storage failure it cannot handle. For the system under test that is
        // a crash of the process: what it must guarantee then is what it must guarantee after any crash.
        void on_death(int sg, siginfo_t* info, void* uc)
        {
            (void)info;
            void* pc = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
            Dl_info di;
            bool lib = false;
            if (sh && sh->fired_effective > 0 && dladdr(pc, &di) && di.dli_fname)
                lib = std::strstr(di.dli_fname, "libhdf5") || std::strstr(di.dli_fname, "libgdal") || std::strstr(di.dli_fname, "libtiff");
            if (lib)
            {
                sh->crashed = 1;
                ++sh->library_deaths;
                _exit(77);
            }
            signal(sg, SIG_DFL);
            raise(sg);
        }
        void watch_library_deaths()
        {
            static char stack[65536];
            stack_t ss{};
            ss.ss_sp = stack;
            ss.ss_size = sizeof(stack);
            sigaltstack(&ss, nullptr);
            struct sigaction sa{};
            sa.sa_sigaction = on_death;
            sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
            for (int sg : {SIGSEGV, SIGBUS, SIGFPE}) sigaction(sg, &sa, nullptr);
        }
        [[noreturn]] void crash_now()
        {
            sh->crashed = 1;
            sh->hash = mix(sh->hash, 0xdeadull);
            release_locks(actor_);
            _exit(77);
        }

        // One event at the seam. Returns the fault that fires (index into trace faults) or -1.
        int event(std::uint32_t cls, std::uint64_t a, std::uint64_t b, std::uint64_t c)
        {
            if (!active) return -1;
            if (cls != fc_alloc)
            {
                if (on_io_event) on_io_event(cls);
                ++sh->events;
                ++sh->events_by_class[cls_index(cls)];
                sh->hash = mix(sh->hash, mix(mix(cls, a), mix(b, c)));
                static bool const verbose = getenv("SIM_EVENTS");
                if (verbose) std::fprintf(stderr, "EV %u %llx %llx %llx\n", cls, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
                sh->mono_ns += 1000 + (sh->hash & 1023);
                if (stuck_library_is_crash && sh->fired_effective > 0 && sh->events > 300000ull) { ++sh->library_deaths; crash_now(); }
                if (sh->events > 3000000ull)
                {
                    if (!sh->violated)
                    {
                        sh->violated = 1;
                        std::snprintf(sh->vcls, sizeof(sh->vcls), "no-progress");
                        std::snprintf(sh->vtext, sizeof(sh->vtext), "more than 3000000 storage calls in one run (op %u)", sh->cur_op);
                    }
                    _exit(78);
                }
            }
            if (!faults_on || !cur_trace || (cls & masked)) return -1;
            int fired = -1;
            auto const& fl = cur_trace->faults;
            for (std::size_t i = 0; i < fl.size() && i < (std::size_t)max_faults; ++i)
            {
                auto const& f = fl[i];
                if (f.op > sh->cur_op || !(f.cls & cls) || !applicable(f.kind, cls)) continue;
                auto& st = sh->fstate[i];
                if (st.fired >= f.count) continue;
                if (st.seen < f.nth) { ++st.seen; continue; }
                if (fired >= 0) continue;
                ++st.fired;
                ++sh->fired_total;
                ++sh->fired_kind[f.kind];
                if (!benign(f.kind)) { ++sh->fired_effective; if (cls == fc_read) ++sh->fired_reading; if (cls == fc_open || cls == fc_stat) ++sh->fired_opening; }
                sh->hash = mix(sh->hash, 0xfa17ull + f.kind);
                if (f.kind == fk_clockjump)
                {
                    sh->wall_off_ns += (std::int64_t)(f.arg & 1 ? 1 : -1) * (std::int64_t)(f.arg >> 1) * 1000000ll;
                    continue;
                }
                if (f.kind == fk_stall)
                {
                    sh->mono_ns += (std::uint64_t)f.arg * 1000000ull;
                    continue;
                }
                fired = (int)i;
            }
            return fired;
        }

        int errno_of(std::uint32_t k)
        {
            switch (k)
            {
                case fk_enospc: return ENOSPC;
                case fk_eintr: return EINTR;
                case fk_eacces: return EACCES;
                case fk_emfile: return EMFILE;
                case fk_ewouldblock: return EWOULDBLOCK;
                default: return EIO;
            }
        }

        int sim_open(char const* path, int flags)
        {
            std::string n = canon(path);
            int fi = event(fc_open, hash_str(n), (std::uint64_t)flags & 0xffffff, 0);
            if (fi >= 0)
            {
                auto const& f = cur_trace->faults[fi];
                if (f.kind == fk_crash) crash_now();
                errno = errno_of(f.kind);
                return -1;
            }
            if (n == "/simfs") { errno = EISDIR; return -1; }
            int f = find_file(n);
            if (f < 0)
            {
                if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
                f = new_file(n);
                ++sh->write_calls;
                if (f < 0) { errno = ENOSPC; return -1; }
            }
            else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
            if ((flags & O_TRUNC) && ((flags & O_ACCMODE) != O_RDONLY))
            {
                if (sh->files[f].size) ++sh->write_calls;
                std::memset(data(f), 0, sh->files[f].size);
                sh->files[f].size = 0;
            }
            for (int i = 0; i < max_fds; ++i)
                if (!fds[i].used)
                {
                    fds[i] = SimFd{};
                    fds[i].used = true;
                    fds[i].file = f;
                    fds[i].flags = flags;
                    if (flags & O_APPEND) fds[i].off = sh->files[f].size;
                    return fd_base + i;
                }
            errno = EMFILE;
            return -1;
        }
        void unlock_fd(SimFd& d)
        {
            auto& fl = sh->files[d.file];
            int const a = d.lock_actor;
            if (d.lock == LOCK_EX && fl.lock_ex == a + 1) { if (--fl.ex_cnt <= 0) { fl.lock_ex = 0; fl.ex_cnt = 0; } }
            if (d.lock == LOCK_SH && fl.lock_sh[a] > 0) --fl.lock_sh[a];
            d.lock = 0;
        }
        int sim_close(int fd)
        {
            auto* d = fdp(fd);
            if (!d) { errno = EBADF; return -1; }
            int fi = event(fc_close, (std::uint64_t)d->file, 0, 0);
            if (fi >= 0 && cur_trace->faults[fi].kind == fk_crash) crash_now();
            int f = d->file;
            unlock_fd(*d);
            d->used = false;
            maybe_free(f);
            if (fi >= 0) { errno = errno_of(cur_trace->faults[fi].kind); return -1; }
            return 0;
        }
        ssize_t sim_pread(int fd, void* buf, std::size_t n, std::uint64_t off, bool adv)
        {
            auto* d = fdp(fd);
            if (!d) { errno = EBADF; return -1; }
            if ((d->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
            auto& f = sh->files[d->file];
            int fi = event(fc_read, (std::uint64_t)d->file, off, n);
            std::size_t m = off >= f.size ? 0 : std::min<std::uint64_t>(n, f.size - off);
            if (fi >= 0)
            {
                auto const& ft = cur_trace->faults[fi];
                if (ft.kind == fk_crash) crash_now();
                if (ft.kind == fk_short)
                {
                    if (m > 1) m = 1 + ft.arg % (m - 1);
                }
                else { errno = errno_of(ft.kind); return -1; }
            }
            std::memcpy(buf, data(d->file) + off, m);
            if (adv) d->off += m;
            return (ssize_t)m;
        }
        void put(int fidx, std::uint64_t off, void const* buf, std::size_t n)
        {
            auto& f = sh->files[fidx];
            if (n == 0) return;
            std::memcpy(data(fidx) + off, buf, n);
            f.size = std::max<std::uint64_t>(f.size, off + n);
            f.high = std::max<std::uint64_t>(f.high, f.size);
        }
        ssize_t sim_pwrite(int fd, void const* buf, std::size_t n, std::uint64_t off, bool adv)
        {
            auto* d = fdp(fd);
            if (!d) { errno = EBADF; return -1; }
            if ((d->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
            ++sh->write_calls;
            auto& f = sh->files[d->file];
            int fi = event(fc_write, (std::uint64_t)d->file, off, hash_bytes(buf, n));
            if (off + n > file_max) { errno = EFBIG; return -1; }
            std::size_t m = n;
            int err = 0;
            if (fi >= 0)
            {
                auto const& ft = cur_trace->faults[fi];
                if (ft.kind == fk_crash)
                {
                    put(d->file, off, buf, n ? ft.arg % (n + 1) : 0);
                    crash_now();
                }
                if (ft.kind == fk_short) { if (m > 1) m = 1 + ft.arg % (m - 1); }
                else if (ft.kind == fk_torn) { put(d->file, off, buf, n ? ft.arg % (n + 1) : 0); errno = EIO; return -1; }
                else { errno = errno_of(ft.kind); return -1; }
            }
            if (sh->capacity && faults_on && off + m > f.size)
            {
                std::uint64_t grow = off + m - f.size, tot = total_size();
                if (tot + grow > sh->capacity)
                {
                    ++sh->fired_total;
                    ++sh->fired_effective;
                    ++sh->fired_kind[fk_enospc];
                    std::uint64_t room = sh->capacity > tot ? sh->capacity - tot : 0;
                    std::uint64_t end = f.size + room;
                    std::size_t k = end > off ? std::min<std::uint64_t>(m, end - off) : 0;
                    if (k == 0) { errno = ENOSPC; return -1; }
                    m = k;
                }
            }
            put(d->file, off, buf, m);
            (void)err;
            if (adv) d->off += m;
            return (ssize_t)m;
        }
        int sim_trunc(int fd, std::uint64_t size)
        {
            auto* d = fdp(fd);
            if (!d) { errno = EBADF; return -1; }
            if ((d->flags & O_ACCMODE) == O_RDONLY) { errno = EINVAL; return -1; }
            ++sh->write_calls;
            int fi = event(fc_trunc, (std::uint64_t)d->file, size, 0);
            if (fi >= 0)
            {
                auto const& ft = cur_trace->faults[fi];
                if (ft.kind == fk_crash) crash_now();
                errno = errno_of(ft.kind);
                return -1;
            }
            auto& f = sh->files[d->file];
            if (size > file_max) { errno = EFBIG; return -1; }
            if (size < f.size) std::memset(data(d->file) + size, 0, f.size - size);
            f.size = size;
            f.high = std::max(f.high, size);
            return 0;
        }
        void fill_stat(struct ::stat* st, int f)
        {
            std::memset(st, 0, sizeof(*st));
            st->st_dev = (dev_t)(4242 + actor_);
            st->st_ino = (ino_t)(1000 + f);
            st->st_nlink = 1;
            st->st_mode = S_IFREG | 0644;
            st->st_size = (off_t)sh->files[f].size;
            st->st_blksize = 4096;
            st->st_blocks = (blkcnt_t)((sh->files[f].size + 511) / 512);
            st->st_mtime = 1700000000;
        }
        int sim_stat(char const* path, struct ::stat* st)
        {
            std::string n = canon(path);
            int fi = event(fc_stat, hash_str(n), 0, 0);
            if (fi >= 0)
            {
                auto const& ft = cur_trace->faults[fi];
                if (ft.kind == fk_crash) crash_now();
                errno = errno_of(ft.kind);
                return -1;
            }
            if (n == "/simfs")
            {
                std::memset(st, 0, sizeof(*st));
                st->st_dev = (dev_t)(4242 + actor_);
                st->st_ino = 2;
                st->st_mode = S_IFDIR | 0755;
                return 0;
            }
            int f = find_file(n);
            if (f < 0) { errno = ENOENT; return -1; }
            fill_stat(st, f);
            return 0;
        }
        int sim_unlink(char const* path)
        {
            std::string n = canon(path);
            ++sh->write_calls;
            int fi = event(fc_unlink, hash_str(n), 0, 0);
            if (fi >= 0)
            {
                auto const& ft = cur_trace->faults[fi];
                if (ft.kind == fk_crash) crash_now();
                errno = errno_of(ft.kind);
                return -1;
            }
            int f = find_file(n);
            if (f < 0) { errno = ENOENT; return -1; }
            sh->files[f].exists = 0;
            maybe_free(f);
            return 0;
        }
        int sim_rename(char const* a, char const* b)
        {
            std::string n = canon(a), m = canon(b);
            ++sh->write_calls;
            int fi = event(fc_unlink, hash_str(n), hash_str(m), 1);
            if (fi >= 0)
            {
                auto const& ft = cur_trace->faults[fi];
                if (ft.kind == fk_crash) crash_now();
                errno = errno_of(ft.kind);
                return -1;
            }
            int f = find_file(n);
            if (f < 0) { errno = ENOENT; return -1; }
            int g = find_file(m);
            if (g >= 0 && g != f) { sh->files[g].exists = 0; maybe_free(g); }
            if (m.size() >= sizeof(SimFile::name)) { errno = ENAMETOOLONG; return -1; }
            std::strcpy(sh->files[f].name, m.c_str());
            return 0;
        }
        int sim_flock(int fd, int op)
        {
            auto* d = fdp(fd);
            if (!d) { errno = EBADF; return -1; }
            int fi = event(fc_lock, (std::uint64_t)d->file, (std::uint64_t)op, 0);
            if (fi >= 0)
            {
                auto const& ft = cur_trace->faults[fi];
                if (ft.kind == fk_crash) crash_now();
                errno = errno_of(ft.kind);
                return -1;
            }
            auto& f = sh->files[d->file];
            int o = op & ~LOCK_NB;
            if (o == LOCK_UN) { unlock_fd(*d); return 0; }
            // conflicts: locks belong to open file descriptions, also within one process
            int prev = d->lock;
            if (prev) unlock_fd(*d);
            bool conflict = f.lock_ex != 0;
            if (o == LOCK_EX)
                for (int i = 0; i < 8; ++i) conflict |= f.lock_sh[i] > 0;
            if (conflict) { errno = EWOULDBLOCK; return -1; }   // callers use LOCK_NB
            if (o == LOCK_EX) { f.lock_ex = actor_ + 1; f.ex_cnt = 1; }
            else ++f.lock_sh[actor_];
            d->lock = o;
            d->lock_actor = actor_;
            return 0;
        }

        // stdio on top of simulated descriptors
        struct Cookie { int fd; };
        struct FileMap { FILE* f; int fd; };
        FileMap fmap[64];

        ssize_t ck_read(void* c, char* b, std::size_t n)
        {
            auto* k = (Cookie*)c;
            auto* d = fdp(k->fd);
            return d ? sim_pread(k->fd, b, n, d->off, true) : -1;
        }
        ssize_t ck_write(void* c, char const* b, std::size_t n)
        {
            auto* k = (Cookie*)c;
            auto* d = fdp(k->fd);
            if (!d) return 0;
            if (d->flags & O_APPEND) d->off = sh->files[d->file].size;
            auto r = sim_pwrite(k->fd, b, n, d->off, true);
            return r < 0 ? 0 : r;
        }
        int ck_seek(void* c, off64_t* o, int w)
        {
            auto* k = (Cookie*)c;
            auto* d = fdp(k->fd);
            if (!d) return -1;
            std::int64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (std::int64_t)d->off : (std::int64_t)sh->files[d->file].size;
            if (base + *o < 0) { errno = EINVAL; return -1; }
            d->off = (std::uint64_t)(base + *o);
            *o = (off64_t)d->off;
            return 0;
        }
        int ck_close(void* c)
        {
            auto* k = (Cookie*)c;
            for (auto& m : fmap)
                if (m.f && m.fd == k->fd) m.f = nullptr;
            int r = sim_close(k->fd);
            delete k;
            return r;
        }
        FILE* sim_fopen(char const* path, char const* mode)
        {
            int flags = 0;
            bool plus = std::strchr(mode, '+') != nullptr;
            switch (mode[0])
            {
                case 'r': flags = plus ? O_RDWR : O_RDONLY; break;
                case 'w': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
                case 'a': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
                default: errno = EINVAL; return nullptr;
            }
            if (std::strchr(mode, 'x')) flags |= O_EXCL;
            int fd = sim_open(path, flags);
            if (fd < 0) return nullptr;
            cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
            Cookie* cookie;
            { NoFaults none; cookie = new Cookie{fd}; }
            FILE* f = fopencookie(cookie, mode, io);
            if (f)
                for (auto& m : fmap)
                    if (!m.f) { m.f = f; m.fd = fd; break; }
            return f;
        }
        int sim_fileno(FILE* f)
        {
            for (auto& m : fmap)
                if (m.f == f && f) return m.fd;
            return -1;
        }
    }  // namespace

    void (*on_io_event)(std::uint32_t) = nullptr;
    void (*before_runs)() = nullptr;
    thread_local int in_sut = 0;
    bool clock_events = false;
    std::vector<std::int64_t> wall_samples;

    std::uint64_t hash_bytes(void const* p, std::size_t n, std::uint64_t h)
    {
        auto const* b = (unsigned char const*)p;
        while (n >= 8)
        {
            std::uint64_t v;
            std::memcpy(&v, b, 8);
            h = (h ^ v) * 0x9FB21C651E98DF25ull;
            h ^= h >> 29;
            b += 8;
            n -= 8;
        }
        while (n--) h = (h ^ *b++) * 1099511628211ull;
        return h ^ (h >> 31);
    }

    void violate(std::string const& cls, std::string const& what) { throw Violation{cls, what}; }

    void probe(char const* name)
    {
        if (!sh) return;
        for (std::uint32_t i = 0; i < sh->nprobes; ++i)
            if (std::strncmp(sh->probes[i].name, name, 47) == 0) { ++sh->probes[i].n; return; }
        if (sh->nprobes < max_probes)
        {
            std::strncpy(sh->probes[sh->nprobes].name, name, 47);
            sh->probes[sh->nprobes++].n = 1;
        }
    }
    void state(std::uint64_t h)
    {
        if (sh->nstates < max_states) sh->states[sh->nstates++] = h;
    }
    void log_event(std::uint64_t h) { sh->hash = mix(sh->hash, h); }
    bool library_call(char const* what) { return event(fc_lib, hash_str(what), 0, 0) >= 0; }
    bool decision_event(std::uint32_t cls, std::uint64_t tag, std::uint32_t& kind, std::uint32_t& arg, std::uint32_t& seq)
    {
        int const f = event(cls, tag, 0, 0);
        if (f < 0) return false;
        kind = cur_trace->faults[(std::size_t)f].kind;
        arg = cur_trace->faults[(std::size_t)f].arg;
        seq = sh->fstate[f].fired;
        return true;
    }
    void mask_faults(std::uint32_t c) { masked = c; }
    std::uint32_t masked_faults() { return masked; }
    std::uint32_t faults_fired_reading() { return sh->fired_reading; }
    std::uint32_t faults_fired_opening() { return sh->fired_opening; }
    std::uint32_t faults_fired() { return sh->fired_effective; }
    std::uint32_t faults_fired_total() { return sh->fired_total; }
    std::uint64_t io_events() { return sh->events; }
    std::uint64_t sim_now_ns() { return sh->mono_ns; }
    std::int64_t sim_wall_ns() { return 1700000000000000000ll + (std::int64_t)sh->mono_ns + sh->wall_off_ns; }
    void sim_advance(std::uint64_t ns) { sh->mono_ns += ns; }
    void sim_wall_jump(std::int64_t ns) { sh->wall_off_ns += ns; }
    void sim_set_faults(bool e) { faults_on = e; }
    bool sim_faults_enabled() { return faults_on; }
    bool fs_exists(std::string const& p) { return find_file(canon(p.c_str())) >= 0; }
    std::vector<unsigned char> fs_content(std::string const& p)
    {
        int f = find_file(canon(p.c_str()));
        if (f < 0) return {};
        return {data(f), data(f) + sh->files[f].size};
    }
    void fs_put(std::string const& p, std::vector<unsigned char> const& c)
    {
        int f = find_file(canon(p.c_str()));
        if (f < 0) f = new_file(canon(p.c_str()));
        std::memset(data(f), 0, sh->files[f].size);
        sh->files[f].size = 0;
        put(f, 0, c.data(), c.size());
    }
    void fs_remove(std::string const& p)
    {
        int f = find_file(canon(p.c_str()));
        if (f >= 0) { sh->files[f].exists = 0; maybe_free(f); }
    }
    std::vector<std::string> fs_list()
    {
        std::vector<std::string> r;
        for (auto& f : sh->files)
            if (f.used && f.exists) r.push_back(f.name);
        return r;
    }
    int fs_open_descriptors(std::string const& p)
    {
        int n = 0;
        for (auto& d : fds)
            if (d.used && (p.empty() || p == sh->files[d.file].name)) ++n;
        return n;
    }
    std::uint64_t fs_write_calls() { return sh->write_calls; }
    void fs_set_capacity(std::uint64_t b) { sh->capacity = b; }
    void set_actor(int a) { actor_ = a; }
    void release_locks(int a)
    {
        for (auto& f : sh->files)
        {
            if (f.lock_ex == a + 1) { f.lock_ex = 0; f.ex_cnt = 0; }
            f.lock_sh[a] = 0;
        }
    }
    void* shared_scratch(std::size_t* n)
    {
        if (n) *n = scratch_size;
        return sh->scratch;
    }
    void restart_process()
    {
        sh->crashed = 2;
        _exit(77);
    }
    void Run::outcome(std::int32_t code, std::uint64_t value)
    {
        if (op_idx < max_ops)
        {
            sh->oc[op_idx].code = code;
            sh->oc[op_idx].value = value;
        }
        sh->hash = mix(sh->hash, (std::uint64_t)code * 31 + value);
    }
    std::string Harness::describe(Op const& op) const
    {
        std::string s = op.kind + "(";
        for (std::size_t i = 0; i < op.a.size(); ++i) s += (i ? "," : "") + std::to_string(op.a[i]);
        return s + ")";
    }

    // ------------------------------------------------------------ running a trace
    struct Result
    {
        std::uint64_t hash = 0;
        bool violated = false;
        std::string cls, text;
        std::uint64_t events = 0;
        int incarnations = 0;
        std::uint32_t fired_total = 0, fired_effective = 0;
        std::uint32_t vop = 0;
    };

    namespace {

        void init_shared()
        {
            if (sh) return;
            sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            arena = (unsigned char*)mmap(nullptr, file_max * max_files, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (sh == MAP_FAILED || arena == MAP_FAILED) { std::perror("mmap"); _exit(2); }
        }
        void reset_shared()
        {
            for (int i = 0; i < max_files; ++i)
            {
                auto h = std::max(sh->files[i].high, sh->files[i].size);
                if (h) std::memset(data(i), 0, h);
            }
            auto nst = sh->nstates;
            (void)nst;
            std::size_t head = offsetof(Shared, states);
            std::memset((void*)sh, 0, head);
            std::memset(sh->probes, 0, sizeof(sh->probes));
            sh->nprobes = 0;
            sh->nstates = 0;
            std::memset(sh->scratch, 0, 65536);
        }

        void child_main(Harness& h, Trace const& t, int incarnation, std::uint32_t start_op)
        {
            // everything the harness and the code under test print is suppressed unless asked for
            active = true;
            faults_on = true;
            cur_trace = &t;
            for (auto& d : fds) d.used = false;
            watch_library_deaths();
            alarm(90);   // a process that waits for itself does not use time
            struct rlimit rl{20, 20};
            setrlimit(RLIMIT_CPU, &rl);
            rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            Run run{t};
            run.incarnation = incarnation;
            try
            {
                sh->cur_op = start_op;
                run.op_idx = 0;
                {
                    NoFaults nf;
                    h.begin(run);
                }
                for (std::size_t i = 0; i < t.ops.size() && i < (std::size_t)max_ops; ++i)
                {
                    run.op_idx = i;
                    if (i < start_op)
                    {
                        run.real = false;
                        run.logged = sh->oc[i].code;
                        run.logged_value = sh->oc[i].value;
                        h.step(run, t.ops[i]);
                        if (sh->oc[i].died && i + 1 < start_op)
                        {
                            // a new process took over here: rebuild what it concluded
                            run.death = sh->oc[i].died;
                            run.logged_value = sh->oc[i].restart;
                            h.restarted(run);
                        }
                        continue;
                    }
                    if (i == start_op && incarnation > 0)
                    {
                        run.real = true;
                        run.last_op_crashed = true;
                        run.death = sh->death;
                        sh->cur_op = (std::uint32_t)i;
                        h.restarted(run);
                        if (i) sh->oc[i - 1].restart = run.restart;
                        run.last_op_crashed = false;
                    }
                    run.real = true;
                    run.logged = oc_none;
                    sh->cur_op = (std::uint32_t)i;
                    sh->oc[i].code = oc_crashed;   // unless completed
                    sh->oc[i].value = 0;
                    sh->mono_ns += 50000;
                    h.step(run, t.ops[i]);
                    if (sh->oc[i].code == oc_crashed) sh->oc[i].code = oc_ok;
                    if (getenv("SIM_H5ERR"))
                        std::fprintf(stderr, "## op %zu %s -> %d %llx fired %llu\n", i, h.describe(t.ops[i]).c_str(), sh->oc[i].code,
                            (unsigned long long)sh->oc[i].value, (unsigned long long)sh->fired_effective);
                }
                if (start_op >= t.ops.size() && incarnation > 0)
                {
                    run.op_idx = t.ops.size();
                    run.real = true;
                    run.last_op_crashed = true;
                    run.death = sh->death;
                    h.restarted(run);
                    run.last_op_crashed = false;
                }
                sh->cur_op = (std::uint32_t)t.ops.size();
                run.op_idx = t.ops.size();
                run.real = true;
                h.finish(run);
            }
            catch (Violation const& v)
            {
                sh->violated = 1;
                std::snprintf(sh->vcls, sizeof(sh->vcls), "%s", v.cls.c_str());
                std::snprintf(sh->vtext, sizeof(sh->vtext), "%s", v.what());
            }
            catch (std::exception const& e)
            {
                sh->violated = 1;
                std::snprintf(sh->vcls, sizeof(sh->vcls), "unexpected-exception");
                std::snprintf(sh->vtext, sizeof(sh->vtext), "%s", e.what());
            }
            catch (...)
            {
                sh->violated = 1;
                std::snprintf(sh->vcls, sizeof(sh->vcls), "unexpected-exception");
                std::snprintf(sh->vtext, sizeof(sh->vtext), "unknown exception");
            }
            sh->finished = 1;
            _exit(0);
        }

        bool verbose = false;

        // Continue on a stack that is always at the same address and empty, with a fixed canary: what never
        // initialised variables happen to contain does not depend on the environment. Never returns.
        std::function<void()> const* fresh_entry;
        void fresh_main()
        {
            (*fresh_entry)();
            _exit(2);
        }
        __attribute__((optimize("no-stack-protector"), noinline)) void on_fresh_stack(std::function<void()> const& f)
        {
            std::size_t const size = 64u << 20;
            void* p = mmap((void*)0x6f0000000000, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
            if (p == MAP_FAILED) { std::perror("mmap"); _exit(2); }
            static ucontext_t c;
            getcontext(&c);
            c.uc_stack.ss_sp = p;
            c.uc_stack.ss_size = size;
            c.uc_link = nullptr;
            fresh_entry = &f;
            makecontext(&c, fresh_main, 0);
#if defined(__x86_64__)
            asm volatile("movq %0, %%fs:0x28" ::"r"(0x5a17c0deull << 8));
#endif
            setcontext(&c);
            _exit(2);
        }

        Result run_here(Factory const& factory, Trace const& t)
        {
            Result r;
            reset_shared();
            sh->mono_ns = 1000000000ull;
            std::uint32_t start = 0;
            for (int inc = 0; inc < 64; ++inc)
            {
                r.incarnations = inc + 1;
                sh->crashed = 0;
                sh->finished = 0;
                std::fflush(nullptr);
                pid_t pid = fork();
                if (pid < 0) { std::perror("fork"); _exit(2); }
                if (pid == 0)
                {
                    if (!verbose)
                    {
                         int n = ::open("/dev/null", O_RDWR);
                         dup2(n, 1);
                         if (!getenv("SIM_H5ERR")) dup2(n, 2);
                    }
                    on_fresh_stack([&]() {
                        Harness* h = factory(t.profile);
                        child_main(*h, t, inc, start);
                    });
                }
                int st = 0;
                while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
                for (int a = 0; a < 8; ++a) release_locks(a);
                if (sh->finished) break;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && sh->crashed)
                {
                    // files whose last name is gone and that were only held open die with the process
                    for (auto& f : sh->files)
                        if (f.used && !f.exists) f.used = 0;
                    if (getenv("SIM_H5ERR")) std::fprintf(stderr, "## process %s in op %u\n", sh->crashed == 2 ? "restarted" : "crashed", sh->cur_op);
                    sh->death = sh->crashed == 2 ? 3 : sh->cur_op >= t.ops.size() ? 2 : 1;
                    if (sh->cur_op >= t.ops.size()) { start = (std::uint32_t)t.ops.size(); }
                    else
                    {
                        if (sh->crashed == 1) sh->oc[sh->cur_op].code = oc_crashed;
                        sh->oc[sh->cur_op].died = (std::uint16_t)sh->death;
                        sh->oc[sh->cur_op].restart = 0;
                        start = sh->cur_op + 1;
                    }
                    continue;
                }
                if (!sh->violated)
                {
                    sh->violated = 1;
                    if (WIFSIGNALED(st))
                    {
                        int sg = WTERMSIG(st);
                        if (sg == SIGKILL)
                        {
                            // out of memory killer or operator: not a property of the code
                            std::fprintf(stderr, "child killed by SIGKILL\n");
                            _exit(3);
                        }
                        std::snprintf(sh->vcls, sizeof(sh->vcls), sg == SIGXCPU ? "no-progress" : "died-by-signal-%d", sg);
                        std::snprintf(sh->vtext, sizeof(sh->vtext), "the process died by signal %d in op %u (%s)", sg, sh->cur_op,
                            sh->cur_op < t.ops.size() ? t.ops[sh->cur_op].kind.c_str() : "finish");
                    }
                    else
                    {
                        std::snprintf(sh->vcls, sizeof(sh->vcls), "died-by-exit");
                        std::snprintf(sh->vtext, sizeof(sh->vtext), "the process exited with status %d in op %u (%s)", WEXITSTATUS(st), sh->cur_op,
                            sh->cur_op < t.ops.size() ? t.ops[sh->cur_op].kind.c_str() : "finish");
                    }
                }
                break;
            }
            r.hash = sh->hash;
            r.violated = sh->violated;
            r.cls = sh->vcls;
            r.text = sh->vtext;
            if (r.violated) r.hash = mix(r.hash, hash_str(r.cls));
            r.events = sh->events;
            r.fired_total = sh->fired_total;
            r.fired_effective = sh->fired_effective;
            r.vop = sh->cur_op;
            return r;
        }

        using json = nlohmann::json;

        json to_json(Trace const& t)
        {
            json j;
            j["profile"] = t.profile;
            j["seed"] = t.seed;
            j["cfg"] = t.cfg;
            j["ops"] = json::array();
            for (auto& o : t.ops) j["ops"].push_back({{"op", o.kind}, {"a", o.a}});
            j["faults"] = json::array();
            for (auto& f : t.faults)
                j["faults"].push_back({{"op", f.op}, {"nth", f.nth}, {"cls", f.cls}, {"kind", fault_kind_name[f.kind]}, {"arg", f.arg}, {"count", f.count}});
            return j;
        }
        Trace from_json(json const& j)
        {
            Trace t;
            t.profile = j.at("profile");
            t.seed = j.at("seed");
            for (auto& [k, v] : j.at("cfg").items()) t.cfg[k] = v.get<std::int64_t>();
            for (auto& o : j.at("ops")) t.ops.push_back(Op{o.at("op"), o.at("a").get<std::vector<std::uint64_t>>()});
            for (auto& f : j.at("faults"))
            {
                Fault x;
                x.op = f.at("op");
                x.nth = f.at("nth");
                x.cls = f.at("cls");
                std::string k = f.at("kind");
                for (int i = 0; i < fk_nr; ++i)
                    if (k == fault_kind_name[i]) x.kind = (std::uint32_t)i;
                x.arg = f.at("arg");
                x.count = f.at("count");
                t.faults.push_back(x);
            }
            return t;
        }
        // Every run descends from a process that did nothing else, so that what it finds in its memory (addresses,
        // never initialised bytes) depends on the trace only
        int to_zygote = -1, from_zygote = -1;
        bool transfer(int fd, void* p, std::size_t n, bool out)
        {
            auto* b = (char*)p;
            while (n)
            {
                ssize_t k = out ? syscall(SYS_write, fd, b, n) : syscall(SYS_read, fd, b, n);
                if (k < 0 && errno == EINTR) continue;
                if (k <= 0) return false;
                b += k;
                n -= (std::size_t)k;
            }
            return true;
        }
        bool transfer_text(int fd, std::string& s, bool out)
        {
            std::uint64_t n = s.size();
            if (!transfer(fd, &n, sizeof n, out)) return false;
            if (!out) s.assign(n, 0);
            return transfer(fd, s.data(), n, out);
        }
        void start_zygote(Factory const& factory)
        {
            int in[2], out[2];
            if (pipe(in) || pipe(out)) { std::perror("pipe"); _exit(2); }
            std::fflush(nullptr);
            pid_t pid = fork();
            if (pid < 0) { std::perror("fork"); _exit(2); }
            if (pid)
            {
                ::close(in[0]);
                ::close(out[1]);
                to_zygote = in[1];
                from_zygote = out[0];
                return;
            }
            ::close(in[1]);
            ::close(out[0]);
            for (;;)
            {
                std::uint64_t n = 0;
                if (!transfer(in[0], &n, sizeof n, false)) _exit(0);
                pid_t run = fork();
                if (run < 0) { std::perror("fork"); _exit(2); }
                if (run == 0)
                {
                    std::string s(n, 0);
                    if (!transfer(in[0], s.data(), n, false)) _exit(2);
                    Trace t = from_json(json::parse(s));
                    Result r = run_here(factory, t);
                    json o{{"hash", r.hash}, {"violated", r.violated}, {"cls", r.cls}, {"text", r.text}, {"events", r.events},
                        {"incarnations", r.incarnations}, {"fired_total", r.fired_total}, {"fired_effective", r.fired_effective}, {"vop", r.vop}};
                    s = o.dump(-1, ' ', false, json::error_handler_t::replace);
                    _exit(transfer_text(out[1], s, true) ? 0 : 2);
                }
                int st = 0;
                while (waitpid(run, &st, 0) < 0 && errno == EINTR) {}
                if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 2);
            }
        }
        Result run_trace(Trace const& t)
        {
            std::string s = to_json(t).dump();
            Result r;
            if (!transfer_text(to_zygote, s, true) || !transfer_text(from_zygote, s, false))
            {
                std::fprintf(stderr, "a simulated run could not be completed\n");
                _exit(3);
            }
            json o = json::parse(s);
            r.hash = o["hash"];
            r.violated = o["violated"];
            r.cls = o["cls"];
            r.text = o["text"];
            r.events = o["events"];
            r.incarnations = o["incarnations"];
            r.fired_total = o["fired_total"];
            r.fired_effective = o["fired_effective"];
            r.vop = o["vop"];
            return r;
        }

        Trace generate(Factory const& factory, std::string const& profile, std::uint64_t seed)
        {
            Trace t;
            t.profile = profile;
            t.seed = seed;
            Rng rng{mix(seed, hash_str(profile))};
            Harness* h = factory(profile);
            h->generate(rng, t);
            delete h;
            return t;
        }
        double real_now()
        {
            struct timespec ts;
            syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
            return (double)ts.tv_sec + ts.tv_nsec * 1e-9;
        }

        Trace drop_ops(Trace const& t, std::size_t b, std::size_t e)
        {
            Trace r = t;
            r.ops.erase(r.ops.begin() + (long)b, r.ops.begin() + (long)e);
            for (auto& f : r.faults)
            {
                if (f.op >= e) f.op -= (std::uint32_t)(e - b);
                else if (f.op > b) f.op = (std::uint32_t)b;
            }
            return r;
        }

        Trace minimise(Factory const& factory, Trace t, std::string const& cls, double budget)
        {
            double end = real_now() + budget;
            auto bad = [&](Trace const& c) -> bool
            {
                if (real_now() > end) return false;
                auto r = run_trace(c);
                return r.violated && r.cls == cls;
            };
            bool progress = true;
            while (progress && real_now() < end)
            {
                progress = false;
                for (std::size_t i = t.faults.size(); i-- > 0;)
                {
                    Trace c = t;
                    c.faults.erase(c.faults.begin() + (long)i);
                    if (bad(c)) { t = c; progress = true; }
                }
                for (std::size_t n = std::max<std::size_t>(t.ops.size() / 2, 1); n >= 1; n /= 2)
                {
                    for (std::size_t b = t.ops.size(); b > 0;)
                    {
                        std::size_t s = b > n ? b - n : 0;
                        Trace c = drop_ops(t, s, b);
                        if (bad(c)) { t = c; progress = true; }
                        b = std::min(s, t.ops.size());
                        if (s == 0) break;
                    }
                    if (n == 1) break;
                }
                std::vector<std::string> keys;
                for (auto& [k, v] : t.cfg) keys.push_back(k);
                for (auto& k : keys)
                {
                    if (t.cfg[k] == 0) continue;
                    Trace c = t;
                    c.cfg[k] = 0;
                    if (bad(c)) { t = c; progress = true; }
                }
                for (std::size_t i = 0; i < t.faults.size(); ++i)
                {
                    for (int what = 0; what < 3; ++what)
                    {
                        Trace c = t;
                        auto& f = c.faults[i];
                        if (what == 0) { if (f.count == 1) continue; f.count = 1; }
                        if (what == 1) { if (f.arg == 0) continue; f.arg = 0; }
                        if (what == 2) { if (f.nth == 0) continue; f.nth = 0; }
                        if (bad(c)) { t = c; progress = true; }
                    }
                }
                for (std::size_t i = 0; i < t.ops.size(); ++i)
                    for (std::size_t k = 0; k < t.ops[i].a.size(); ++k)
                    {
                        auto v = t.ops[i].a[k];
                        for (std::uint64_t nv : {(std::uint64_t)0, (std::uint64_t)1, v / 2})
                        {
                            if (nv >= t.ops[i].a[k]) continue;
                            Trace c = t;
                            c.ops[i].a[k] = nv;
                            if (bad(c)) { t = c; progress = true; break; }
                        }
                    }
            }
            return t;
        }

        json describe(Factory const& factory, Trace const& t)
        {
            json d = json::array();
            Harness* h = factory(t.profile);
            for (auto& o : t.ops) d.push_back(h->describe(o));
            delete h;
            return d;
        }
    }  // namespace

    int main_(int argc, char** argv, Factory const& factory)
    {
        // same addresses in every process
        if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR_TRIED"))
        {
            setenv("SIM_ASLR_TRIED", "1", 1);
            setenv("MALLOC_PERTURB_", "165", 1);   // fresh memory always has the same content
            if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
        }
        setenv("TZ", "UTC", 1);
        unsetenv("HDF5_USE_FILE_LOCKING");
        setenv("GDAL_PAM_ENABLED", "NO", 0);
        init_shared();
        verbose = getenv("SIM_VERBOSE") != nullptr;
        if (before_runs) before_runs();
        start_zygote(factory);
        std::string cmd = argc > 1 ? argv[1] : "";
        std::map<std::string, std::string> a;
        std::vector<std::string> pos;
        for (int i = 2; i < argc; ++i)
        {
            std::string s = argv[i];
            if (s.rfind("--", 0) == 0 && i + 1 < argc) { a[s.substr(2)] = argv[i + 1]; ++i; }
            else pos.push_back(s);
        }
        auto num = [&](char const* k, double d) { return a.count(k) ? std::stod(a[k]) : d; };
        if (cmd == "explore")
        {
            std::string profile = a["profile"];
            std::uint64_t base = (std::uint64_t)num("seed", 1);
            std::uint64_t w = (std::uint64_t)num("worker", 0), n = (std::uint64_t)num("workers", 1);
            std::uint64_t runs = (std::uint64_t)num("runs", 1e9);
            double budget = num("seconds", 10);
            std::string out = a["out"];
            double t0 = real_now();
            std::uint64_t done = 0, events = 0, ops = 0, faulty = 0, incs = 0, simns = 0, checked = 0, checked2 = 0;
            std::uint64_t maxviol = (std::uint64_t)num("max-violations", 3);
            std::unordered_set<std::uint64_t> hashes, states;
            std::map<std::string, std::uint64_t> kinds, probes, opkinds;
            std::uint64_t nontrivial = 0;
            json viol = json::array(), samples = json::array(), nondet = json::array();
            std::set<std::string> seen_cls;
            for (std::uint64_t k = w; k < runs; k += n)
            {
                if (real_now() - t0 > budget) break;
                std::uint64_t seed = mix(base * 1000003ull, k) >> 12;
                Trace t = generate(factory, profile, seed);
                auto r = run_trace(t);
                ++done;
                events += r.events;
                incs += (std::uint64_t)r.incarnations;
                simns += sh->mono_ns - 1000000000ull;
                ops += t.ops.size();
                if (r.fired_total) ++faulty;
                for (int i = 0; i < fk_nr; ++i)
                    if (sh->fired_kind[i]) kinds[fault_kind_name[i]] += sh->fired_kind[i];
                for (std::uint32_t i = 0; i < sh->nprobes; ++i) probes[sh->probes[i].name] += sh->probes[i].n;
                if (hashes.insert(r.hash).second && r.events > 10) ++nontrivial;
                for (std::uint32_t i = 0; i < sh->nstates; ++i) states.insert(sh->states[i]);
                for (auto& o : t.ops) ++opkinds[o.kind];
                if ((samples.size() < 2 && t.ops.size() < 14) || done == 1)
                    samples.push_back({{"seed", seed}, {"ops", describe(factory, t)}, {"faults", to_json(t)["faults"]}, {"events", r.events}, {"incarnations", r.incarnations}, {"faults_fired", r.fired_total}});
                bool recheck = r.violated || (done % 40 == 1);
                if (recheck)
                {
                    ++checked;
                    auto r2 = run_trace(t);
                    ++checked2;
                    bool same = r2.violated == r.violated && (r.violated ? r2.cls == r.cls : r2.hash == r.hash);
                    if (!same)
                    {
                        nondet.push_back({{"seed", seed}, {"h1", r.hash}, {"h2", r2.hash}, {"cls", r.cls}, {"cls2", r2.cls}});
                        if (nondet.size() > 3) break;
                        continue;
                    }
                }
                if (r.violated && seen_cls.insert(r.cls).second)
                {
                    std::string path = out + ".v" + std::to_string(viol.size()) + ".json";
                    json j = to_json(t);
                    j["violation"] = r.cls;
                    j["text"] = r.text;
                    j["hash"] = r.hash;
                    std::ofstream(path) << j.dump(1) << "\n";
                    viol.push_back({{"path", path}, {"cls", r.cls}, {"text", r.text}, {"seed", seed}});
                }
                if (viol.size() >= maxviol) break;
            }
            json j;
            j["runs"] = done;
            j["events"] = events;
            j["ops"] = ops;
            j["runs_with_faults"] = faulty;
            j["incarnations"] = incs;
            j["sim_ns"] = simns;
            j["fault_kinds"] = kinds;
            j["probes"] = probes;
            j["op_kinds"] = opkinds;
            j["distinct_histories"] = nontrivial;
            j["violations"] = viol;
            j["nondet"] = nondet;
            j["determinism_rechecks"] = checked2;
            j["samples"] = samples;
            j["wall_s"] = real_now() - t0;
            {
                std::ofstream f(out + ".states", std::ios::binary);
                std::vector<std::uint64_t> v(states.begin(), states.end());
                f.write((char const*)v.data(), (std::streamsize)(v.size() * 8));
            }
            {
                std::ofstream f(out + ".hashes", std::ios::binary);
                std::vector<std::uint64_t> v(hashes.begin(), hashes.end());
                f.write((char const*)v.data(), (std::streamsize)(v.size() * 8));
            }
            std::ofstream(out + ".json") << j.dump() << "\n";
            return 0;
        }
        if (cmd == "replay" || cmd == "minimise")
        {
            std::ifstream f(pos.at(0));
            json j = json::parse(f);
            Trace t = from_json(j);
            auto r = run_trace(t);
            if (cmd == "replay" && getenv("SIM_TWICE"))
            {
                // development: look for differences between processes
                std::cerr << "\n---- again\n";
                auto r2 = run_trace(t);
                std::cerr << r.hash << " " << r2.hash << "\n";
            }
            if (cmd == "minimise" && r.violated)
            {
                Trace m = minimise(factory, t, r.cls, num("seconds", 60));
                r = run_trace(m);
                json o = to_json(m);
                o["violation"] = r.cls;
                o["text"] = r.text;
                o["hash"] = r.hash;
                o["steps"] = describe(factory, m);
                o["fault_op_index"] = r.vop;
                for (auto& [k, v] : j.items())
                    if (!o.contains(k)) o[k] = v;
                std::ofstream(pos.at(1)) << o.dump(1) << "\n";
            }
            json o;
            o["violated"] = r.violated;
            o["cls"] = r.cls;
            o["text"] = r.text;
            o["hash"] = r.hash;
            o["events"] = r.events;
            o["incarnations"] = r.incarnations;
            o["fired"] = r.fired_total;
            o["op"] = r.vop;
            std::cout << "RESULT " << o.dump(-1, ' ', false, json::error_handler_t::replace) << "\n";
            return 0;
        }
        if (cmd == "seed")
        {
            // print the trace of one seed and run it
            Trace t = generate(factory, a["profile"], std::stoull(a["seed"]));
            std::cout << to_json(t).dump(1) << "\n";
            return 0;
        }
        std::cerr << "usage: explore|replay|minimise|seed\n";
        return 2;
    }
}  // namespace sim

// ------------------------------------------------------------------------- interposition
using namespace sim;

#define REAL(ret, name, ...) static auto fn = real<ret (*)(__VA_ARGS__)>(#name)

extern "C" {

    int open(char const* p, int flags, ...)
    {
        mode_t mode = 0;
        if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
        if (active && is_sim(p)) return sim_open(p, flags);
        REAL(int, open, char const*, int, ...);
        return fn(p, flags, mode);
    }
    int open64(char const* p, int flags, ...)
    {
        mode_t mode = 0;
        if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
        if (active && is_sim(p)) return sim_open(p, flags);
        REAL(int, open64, char const*, int, ...);
        return fn(p, flags, mode);
    }
    int close(int fd)
    {
        if (is_simfd(fd)) return sim_close(fd);
        REAL(int, close, int);
        return fn(fd);
    }
    ssize_t read(int fd, void* b, size_t n)
    {
        if (is_simfd(fd)) { auto* d = fdp(fd); if (!d) { errno = EBADF; return -1; } return sim_pread(fd, b, n, d->off, true); }
        REAL(ssize_t, read, int, void*, size_t);
        return fn(fd, b, n);
    }
    ssize_t write(int fd, void const* b, size_t n)
    {
        if (is_simfd(fd))
        {
            auto* d = fdp(fd);
            if (!d) { errno = EBADF; return -1; }
            if (d->flags & O_APPEND) d->off = sh->files[d->file].size;
            return sim_pwrite(fd, b, n, d->off, true);
        }
        REAL(ssize_t, write, int, void const*, size_t);
        return fn(fd, b, n);
    }
    ssize_t writev(int fd, struct iovec const* v, int n)
    {
        if (is_simfd(fd))
        {
            ssize_t t = 0;
            for (int i = 0; i < n; ++i)
            {
                if (v[i].iov_len == 0) continue;
                ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
                if (r < 0) return t ? t : -1;
                t += r;
                if ((size_t)r < v[i].iov_len) break;
            }
            return t;
        }
        REAL(ssize_t, writev, int, struct iovec const*, int);
        return fn(fd, v, n);
    }
    ssize_t pread(int fd, void* b, size_t n, off_t o)
    {
        if (is_simfd(fd)) return sim_pread(fd, b, n, (std::uint64_t)o, false);
        REAL(ssize_t, pread, int, void*, size_t, off_t);
        return fn(fd, b, n, o);
    }
    ssize_t pread64(int fd, void* b, size_t n, off64_t o)
    {
        if (is_simfd(fd)) return sim_pread(fd, b, n, (std::uint64_t)o, false);
        REAL(ssize_t, pread64, int, void*, size_t, off64_t);
        return fn(fd, b, n, o);
    }
    ssize_t pwrite(int fd, void const* b, size_t n, off_t o)
    {
        if (is_simfd(fd)) return sim_pwrite(fd, b, n, (std::uint64_t)o, false);
        REAL(ssize_t, pwrite, int, void const*, size_t, off_t);
        return fn(fd, b, n, o);
    }
    ssize_t pwrite64(int fd, void const* b, size_t n, off64_t o)
    {
        if (is_simfd(fd)) return sim_pwrite(fd, b, n, (std::uint64_t)o, false);
        REAL(ssize_t, pwrite64, int, void const*, size_t, off64_t);
        return fn(fd, b, n, o);
    }
    off_t lseek(int fd, off_t o, int w)
    {
        if (is_simfd(fd))
        {
            auto* d = fdp(fd);
            if (!d) { errno = EBADF; return -1; }
            std::int64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (std::int64_t)d->off : (std::int64_t)sh->files[d->file].size;
            if (base + o < 0) { errno = EINVAL; return -1; }
            d->off = (std::uint64_t)(base + o);
            return (off_t)d->off;
        }
        REAL(off_t, lseek, int, off_t, int);
        return fn(fd, o, w);
    }
    off64_t lseek64(int fd, off64_t o, int w)
    {
        if (is_simfd(fd)) return lseek(fd, o, w);
        REAL(off64_t, lseek64, int, off64_t, int);
        return fn(fd, o, w);
    }
    int ftruncate(int fd, off_t n)
    {
        if (is_simfd(fd)) return sim_trunc(fd, (std::uint64_t)n);
        REAL(int, ftruncate, int, off_t);
        return fn(fd, n);
    }
    int ftruncate64(int fd, off64_t n)
    {
        if (is_simfd(fd)) return sim_trunc(fd, (std::uint64_t)n);
        REAL(int, ftruncate64, int, off64_t);
        return fn(fd, n);
    }
    int fstat(int fd, struct stat* st)
    {
        if (is_simfd(fd))
        {
            auto* d = fdp(fd);
            if (!d) { errno = EBADF; return -1; }
            int fi = event(fc_stat, (std::uint64_t)d->file, 1, 0);
            if (fi >= 0)
            {
                auto const& ft = cur_trace->faults[fi];
                if (ft.kind == fk_crash) crash_now();
                errno = errno_of(ft.kind);
                return -1;
            }
            fill_stat(st, d->file);
            return 0;
        }
        REAL(int, fstat, int, struct stat*);
        return fn(fd, st);
    }
    int fstat64(int fd, struct stat64* st)
    {
        if (is_simfd(fd)) return fstat(fd, (struct stat*)st);
        REAL(int, fstat64, int, struct stat64*);
        return fn(fd, st);
    }
    int stat(char const* p, struct stat* st)
    {
        if (active && is_sim(p)) return sim_stat(p, st);
        REAL(int, stat, char const*, struct stat*);
        return fn(p, st);
    }
    int stat64(char const* p, struct stat64* st)
    {
        if (active && is_sim(p)) return sim_stat(p, (struct stat*)st);
        REAL(int, stat64, char const*, struct stat64*);
        return fn(p, st);
    }
    int lstat(char const* p, struct stat* st)
    {
        if (active && is_sim(p)) return sim_stat(p, st);
        REAL(int, lstat, char const*, struct stat*);
        return fn(p, st);
    }
    int lstat64(char const* p, struct stat64* st)
    {
        if (active && is_sim(p)) return sim_stat(p, (struct stat*)st);
        REAL(int, lstat64, char const*, struct stat64*);
        return fn(p, st);
    }
    int access(char const* p, int m)
    {
        if (active && is_sim(p)) { struct stat st; return sim_stat(p, &st); }
        REAL(int, access, char const*, int);
        return fn(p, m);
    }
    char* realpath(char const* p, char* out)
    {
        REAL(char*, realpath, char const*, char*);
        if (!(active && is_sim(p))) return fn(p, out);
        struct ::stat st;
        if (sim_stat(p, &st) != 0) return nullptr;
        std::string n = canon(p);
        if (n.size() >= 4096) { errno = ENAMETOOLONG; return nullptr; }
        if (!out) out = static_cast<char*>(malloc(4096));
        std::strcpy(out, n.c_str());
        return out;
    }
    int unlink(char const* p)
    {
        if (active && is_sim(p)) return sim_unlink(p);
        REAL(int, unlink, char const*);
        return fn(p);
    }
    int remove(char const* p)
    {
        if (active && is_sim(p)) return sim_unlink(p);
        REAL(int, remove, char const*);
        return fn(p);
    }
    int rename(char const* a, char const* b)
    {
        if (active && is_sim(a)) return sim_rename(a, b);
        REAL(int, rename, char const*, char const*);
        return fn(a, b);
    }
    int mkdir(char const* p, mode_t m)
    {
        if (active && is_sim(p)) { errno = EEXIST; return -1; }
        REAL(int, mkdir, char const*, mode_t);
        return fn(p, m);
    }
    DIR* opendir(char const* p)
    {
        if (active && is_sim(p)) { errno = ENOENT; return nullptr; }
        REAL(DIR*, opendir, char const*);
        return fn(p);
    }
    int flock(int fd, int op)
    {
        if (is_simfd(fd)) return sim_flock(fd, op);
        REAL(int, flock, int, int);
        return fn(fd, op);
    }
    int fsync(int fd)
    {
        if (is_simfd(fd))
        {
            int fi = event(fc_sync, 0, 0, 0);
            if (fi >= 0)
            {
                if (cur_trace->faults[fi].kind == fk_crash) crash_now();
                errno = EIO;
                return -1;
            }
            return 0;
        }
        REAL(int, fsync, int);
        return fn(fd);
    }
    int fdatasync(int fd)
    {
        if (is_simfd(fd)) return fsync(fd);
        REAL(int, fdatasync, int);
        return fn(fd);
    }
    FILE* fopen(char const* p, char const* m)
    {
        if (active && is_sim(p)) return sim_fopen(p, m);
        REAL(FILE*, fopen, char const*, char const*);
        return fn(p, m);
    }
    FILE* fopen64(char const* p, char const* m)
    {
        if (active && is_sim(p)) return sim_fopen(p, m);
        REAL(FILE*, fopen64, char const*, char const*);
        return fn(p, m);
    }
    int fileno(FILE* f)
    {
        if (active) { int fd = sim_fileno(f); if (fd >= 0) return fd; }
        REAL(int, fileno, FILE*);
        return fn(f);
    }

    // clocks
    int clock_gettime(clockid_t id, struct timespec* ts)
    {
        if (active)
        {
            sh->mono_ns += 37;
            if (clock_events) event(fc_clock, (std::uint64_t)id, 0, 0);
            std::int64_t t = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? sim_wall_ns() : (std::int64_t)sh->mono_ns;
            if (clock_events && t == sim_wall_ns()) { NoFaults none; wall_samples.push_back(t); }
            ts->tv_sec = t / 1000000000ll;
            ts->tv_nsec = t % 1000000000ll;
            if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000ll; --ts->tv_sec; }
            return 0;
        }
        return (int)syscall(SYS_clock_gettime, id, ts);
    }
    int gettimeofday(struct timeval* tv, void*)
    {
        struct timespec ts;
        int r = clock_gettime(CLOCK_REALTIME, &ts);
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
        return r;
    }
    time_t time(time_t* p)
    {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        if (p) *p = ts.tv_sec;
        return ts.tv_sec;
    }
    int nanosleep(struct timespec const* req, struct timespec* rem)
    {
        if (active)
        {
            sh->mono_ns += (std::uint64_t)req->tv_sec * 1000000000ull + (std::uint64_t)req->tv_nsec;
            return 0;
        }
        return (int)syscall(SYS_nanosleep, req, rem);
    }
    int clock_nanosleep(clockid_t id, int flags, struct timespec const* req, struct timespec* rem)
    {
        if (active)
        {
            std::int64_t ns = (std::int64_t)req->tv_sec * 1000000000ll + req->tv_nsec;
            if (flags & TIMER_ABSTIME)
            {
                std::int64_t now = id == CLOCK_REALTIME ? sim_wall_ns() : (std::int64_t)sh->mono_ns;
                if (ns > now) sh->mono_ns += (std::uint64_t)(ns - now);
            }
            else sh->mono_ns += (std::uint64_t)ns;
            return 0;
        }
        return (int)syscall(SYS_clock_nanosleep, id, flags, req, rem);
    }
}

void* operator new(std::size_t n)
{
    if (active && in_sut > 0 && faults_on)
    {
        int fi = event(fc_alloc, 0, 0, 0);
        if (fi >= 0) throw std::bad_alloc{};
    }
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc{};
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
