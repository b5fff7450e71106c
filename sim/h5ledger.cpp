#include "h5ledger.hpp"
#include <dlfcn.h>
#include <hdf5.h>

namespace {
    struct Entry { hid_t id = 0; long refs = 0; char const* what = nullptr; };
    constexpr std::size_t cap = 1u << 16;
    Entry table[cap];
    long nr_refs = 0, over = 0, failed = 0;
    bool on = false;
    std::size_t used = 0;

    Entry* find(hid_t id, bool add)
    {
        std::size_t i = (std::uint64_t)id * 0x9E3779B97F4A7C15ull >> 48;
        for (std::size_t k = 0; k < cap; ++k, i = (i + 1) % cap)
        {
            if (table[i].id == id) return &table[i];
            if (table[i].id == 0)
            {
                if (!add || used > cap - 1000) return nullptr;
                table[i].id = id;
                ++used;
                return &table[i];
            }
        }
        return nullptr;
    }
    // drop entries without references when the table gets full
    void compact()
    {
        if (used < cap / 2) return;
        static Entry keep[4096];
        std::size_t n = 0;
        for (auto& e : table)
        {
            if (e.id && e.refs > 0 && n < 4096) keep[n++] = e;
            e = Entry{};
        }
        used = 0;
        for (std::size_t i = 0; i < n; ++i)
            if (auto* e = find(keep[i].id, true)) *e = keep[i];
    }
    hid_t got(hid_t id, char const* what)
    {
        if (!on || id < 0) return id;
        compact();
        if (auto* e = find(id, true))
        {
            if (e->refs == 0) e->what = what;
            ++e->refs;
            ++nr_refs;
        }
        return id;
    }
    void gave(hid_t id)
    {
        if (!on) return;
        auto* e = find(id, false);
        if (!e) return;                  // obtained before start(), or dropped from the table
        if (e->refs <= 0) { ++over; return; }
        --e->refs;
        --nr_refs;
    }
}  // namespace

namespace h5ledger {
    void start()
    {
        for (auto& e : table) e = Entry{};
        nr_refs = over = 0;
        used = 0;
        on = true;
    }
    long outstanding() { return nr_refs; }
    long failed_closes() { return failed; }
    long over_released() { return over; }
    std::string describe()
    {
        std::string r;
        int n = 0;
        for (auto& e : table)
            if (e.id && e.refs > 0 && n++ < 6) r += std::string(r.empty() ? "" : ", ") + e.what + " x" + std::to_string(e.refs);
        return r;
    }
}  // namespace h5ledger

#define NEXT(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)

extern "C" {
#define CLOSER(name) herr_t name(hid_t id) { NEXT(name); gave(id); herr_t r = real(id); if (r < 0) ++failed; return r; }
CLOSER(H5Fclose) CLOSER(H5Gclose) CLOSER(H5Dclose) CLOSER(H5Aclose) CLOSER(H5Oclose) CLOSER(H5Sclose) CLOSER(H5Tclose) CLOSER(H5Pclose)
#define OPEN1(name, A) hid_t name(A a) { NEXT(name); return got(real(a), #name); }
#define OPEN2(name, A, B) hid_t name(A a, B b) { NEXT(name); return got(real(a, b), #name); }
#define OPEN3(name, A, B, C) hid_t name(A a, B b, C c) { NEXT(name); return got(real(a, b, c), #name); }
#define OPEN4(name, A, B, C, D) hid_t name(A a, B b, C c, D d) { NEXT(name); return got(real(a, b, c, d), #name); }
OPEN1(H5Pcreate, hid_t)
OPEN1(H5Tcopy, hid_t)
OPEN1(H5Aget_type, hid_t)
OPEN1(H5Aget_space, hid_t)
OPEN1(H5Dget_type, hid_t)
OPEN1(H5Dget_space, hid_t)
OPEN1(H5Dget_create_plist, hid_t)
OPEN1(H5Fget_access_plist, hid_t)
OPEN1(H5Screate, H5S_class_t)
OPEN1(H5Scopy, hid_t)
OPEN1(H5Tdecode, const void*)
OPEN1(H5Iget_file_id, hid_t)
OPEN1(H5Pcopy, hid_t)
OPEN2(H5Tcreate, H5T_class_t, size_t)
OPEN3(H5Screate_simple, int, const hsize_t*, const hsize_t*)
OPEN3(H5Fopen, const char*, unsigned, hid_t)
OPEN3(H5Gopen2, hid_t, const char*, hid_t)
OPEN3(H5Dopen2, hid_t, const char*, hid_t)
OPEN3(H5Oopen, hid_t, const char*, hid_t)
OPEN3(H5Aopen, hid_t, const char*, hid_t)
OPEN4(H5Fcreate, const char*, unsigned, hid_t, hid_t)
hid_t H5Gcreate2(hid_t a, const char* b, hid_t c, hid_t d, hid_t e) { NEXT(H5Gcreate2); return got(real(a, b, c, d, e), "H5Gcreate2"); }
hid_t H5Acreate2(hid_t a, const char* b, hid_t c, hid_t d, hid_t e, hid_t f) { NEXT(H5Acreate2); return got(real(a, b, c, d, e, f), "H5Acreate2"); }
hid_t H5Dcreate2(hid_t a, const char* b, hid_t c, hid_t d, hid_t e, hid_t f, hid_t g) { NEXT(H5Dcreate2); return got(real(a, b, c, d, e, f, g), "H5Dcreate2"); }
int H5Iinc_ref(hid_t id)
{
    NEXT(H5Iinc_ref);
    int r = real(id);
    if (r > 0) got(id, "H5Iinc_ref");
    return r;
}
int H5Idec_ref(hid_t id)
{
    NEXT(H5Idec_ref);
    gave(id);
    return real(id);
}
}

namespace {
    bool accumulator_off = false;
    herr_t (*real_query)(H5FD_t const*, unsigned long*) = nullptr;
    herr_t query_without_accumulator(H5FD_t const* f, unsigned long* flags)
    {
        auto r = real_query(f, flags);
        if (flags && accumulator_off) *flags &= ~(unsigned long)(H5FD_FEAT_ACCUMULATE_METADATA);
        return r;
    }
}
void h5ledger::without_accumulator(bool off)
{
    accumulator_off = off;
    if (real_query) return;
    hid_t pl = H5Pcreate(H5P_FILE_ACCESS);
    H5FD_t* fd = H5FDopen("/dev/null", H5F_ACC_RDONLY, pl, HADDR_UNDEF);
    if (!fd) std::abort();
    auto* c = const_cast<H5FD_class_t*>(fd->cls);
    real_query = c->query;
    c->query = query_without_accumulator;
    H5FDclose(fd);
    H5Pclose(pl);
}
