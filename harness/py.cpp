// P01, P02: the Python bindings. The interpreter and NumPy are embedded; what is simulated is driven from
// py_driver.py, which also keeps the reference (a NumPy copy, a table of who holds what).
#include "simkit.hpp"
#include "h5ledger.hpp"
#include "lue/py/data_model/submodule.hpp"
#include "lue/core/array.hpp"
#include <pybind11/embed.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
#include <hdf5.h>
#include <unistd.h>
#include <filesystem>

namespace py = pybind11;
using sim::Op;
using sim::Rng;
using sim::Run;
using sim::Trace;

namespace {
    Rng* generator = nullptr;
    py::object driver;

    py::bytes raw(lue::data_model::Array const& array)
    {
        sim::NoFaults nf;
        hid_t id = array.id();
        hid_t space = H5Dget_space(id), file = H5Dget_type(id);
        hid_t type = H5Tget_native_type(file, H5T_DIR_ASCEND);
        hssize_t n = H5Sget_simple_extent_npoints(space);
        std::string buffer((std::size_t)n * H5Tget_size(type), 0);
        herr_t status = n ? H5Dread(id, type, H5S_ALL, H5S_ALL, H5P_DEFAULT, buffer.data()) : 0;
        H5Tclose(type);
        H5Tclose(file);
        H5Sclose(space);
        if (status < 0) throw std::runtime_error("array cannot be read back");
        return py::bytes(buffer);
    }

    py::list raw_strings(lue::data_model::Array const& array)
    {
        sim::NoFaults nf;
        hid_t id = array.id();
        hid_t space = H5Dget_space(id), file = H5Dget_type(id), type = H5Tget_native_type(file, H5T_DIR_ASCEND);
        H5Tclose(file);
        hssize_t n = H5Sget_simple_extent_npoints(space);
        std::vector<char*> buffer((std::size_t)n);
        herr_t status = n ? H5Dread(id, type, H5S_ALL, H5S_ALL, H5P_DEFAULT, buffer.data()) : 0;
        py::list result;
        if (status >= 0)
            for (auto p : buffer) result.append(p ? py::object(py::bytes(p)) : py::object(py::none()));
        if (n && status >= 0) H5Dvlen_reclaim(type, space, H5P_DEFAULT, buffer.data());
        H5Tclose(type);
        H5Sclose(space);
        if (status < 0) throw std::runtime_error("array cannot be read back");
        return result;
    }
}

namespace lue::data_model::test {
    void init_submodule(py::module&) {}    // of the unit tests
}

PYBIND11_EMBEDDED_MODULE(lue_py, module) { lue::data_model::init_submodule(module); }

PYBIND11_EMBEDDED_MODULE(simpy, module)
{
    module.def("below", [](std::uint64_t n) { return generator->below(n); });
    module.def("faults_fired", &sim::faults_fired);
    module.def("faults_fired_reading", &sim::faults_fired_reading);
    module.def("faults", [](bool on) { bool was = sim::sim_faults_enabled(); sim::sim_set_faults(on); return was; });
    module.def("probe", [](std::string const& name) {
        static std::set<std::string> names;
        sim::probe(names.insert(name).first->c_str());
    });
    module.def("log", [](py::bytes const& b) { sim::log_event(sim::hash_str(std::string(b))); });
    module.def("state", [](py::bytes const& b) { sim::state(sim::hash_str(std::string(b))); });
    module.def("open_descriptors", [](std::string const& path) { return sim::fs_open_descriptors(path); });
    module.def("open_objects", [] { return (long)H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL); });
    module.def("exists", &sim::fs_exists);
    module.def("outstanding", [] { return (long)h5ledger::outstanding(); });
    module.def("raw", &raw);
    module.def("raw_strings", &raw_strings);
}

namespace {
    void start_python()
    {
        setenv("PYTHONHASHSEED", "0", 1);
        setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
        setenv("PYTHONMALLOC", "malloc", 1);      // memory given back is overwritten
        setenv("OPENBLAS_NUM_THREADS", "1", 1);
        setenv("OMP_NUM_THREADS", "1", 1);
        unsetenv("PYTHONPATH");
        unsetenv("PYTHONHOME");
        new py::scoped_interpreter{false};        // never ends: simulated processes just stop
        auto sys = py::module_::import("sys");
        auto here = std::filesystem::canonical("/proc/self/exe").parent_path();
        sys.attr("path").attr("insert")(0, (here / "../../harness").lexically_normal().string());
        sys.attr("path").attr("append")("/opt/lue-venv/lib/python3.12/site-packages");
        driver = py::module_::import("py_driver");
        new py::object(driver);
    }

    struct H: sim::Harness
    {
        std::string profile;
        Run* run = nullptr;
        py::object world;
        explicit H(std::string p): profile{std::move(p)} {}
        std::vector<std::string> profiles() const override { return {"P01", "P02"}; }

        void generate(Rng& rng, Trace& t) override
        {
            generator = &rng;
            try
            {
                py::list ops = driver.attr("generate")(profile, t.cfg.empty() ? 0 : 1);
                for (auto item : ops)
                {
                    auto tuple = item.cast<py::tuple>();
                    t.ops.push_back(Op{tuple[0].cast<std::string>(), tuple[1].cast<std::vector<std::uint64_t>>()});
                }
            }
            catch (py::error_already_set const& e)
            {
                std::fprintf(stderr, "%s\n", e.what());
                _exit(2);
            }
            static std::vector<std::pair<std::uint32_t, std::uint32_t>> const kinds{
                {sim::fc_read, sim::fk_short}, {sim::fc_write, sim::fk_short}, {sim::fc_read, sim::fk_eintr}, {sim::fc_write, sim::fk_eintr},
                {sim::fc_read, sim::fk_eio}, {sim::fc_read, sim::fk_eio}, {sim::fc_open, sim::fk_eacces}, {sim::fc_open, sim::fk_emfile},
                {sim::fc_lock, sim::fk_ewouldblock}, {sim::fc_write, sim::fk_eio}, {sim::fc_write, sim::fk_enospc}};
            if (rng.chance(0.6)) return;
            auto n = 1 + rng.below(4);
            for (std::uint64_t i = 0; i < n; ++i)
            {
                auto [cls, kind] = kinds[rng.below(kinds.size() - (rng.chance(0.15) && profile == "P01" ? 0 : 2))];
                sim::Fault f;
                f.op = (std::uint32_t)rng.below(t.ops.size());
                f.nth = (std::uint32_t)(rng.chance(0.6) ? 0 : rng.below(12));
                f.cls = cls;
                f.kind = kind;
                f.arg = (std::uint32_t)rng.below(5000);
                f.count = 1;
                t.faults.push_back(f);
            }
        }
        template<typename F>
        void guarded(F f)
        {
            try { f(); }
            catch (py::error_already_set& e)
            {
                if (e.matches(driver.attr("Violation")))
                {
                    auto cls = e.value().attr("cls").cast<std::string>(), text = e.value().attr("text").cast<std::string>();
                    e.restore();
                    PyErr_Clear();
                    sim::violate(cls, text);
                }
                sim::violate("driver-error", e.what());
            }
        }
        void begin(Run& r) override
        {
            run = &r;
            h5ledger::without_accumulator(true);
            h5ledger::start();
            guarded([&] { world = driver.attr("World")(profile); });
        }
        void step(Run& r, Op const& op) override
        {
            if (!r.real) return;
            sim::probe(op.kind.c_str());
            guarded([&] {
                sim::InSut in;
                world.attr("step")(op.kind, op.a);
            });
            r.outcome(sim::oc_ok);
        }
        void finish(Run&) override
        {
            guarded([&] { world.attr("finish")(); });
        }
        std::string describe(Op const& op) const override { return driver.attr("describe")(profile, op.kind, op.a).cast<std::string>(); }
        std::vector<std::string> components_real() const override
        {
            return {"lue_py (the data model's Python bindings)", "lue_data_model", "lue_hdf5", "libhdf5", "CPython and NumPy"};
        }
        std::vector<std::string> components_stub() const override { return {"disk and file locks (simulated)", "clock (simulated)"}; }
    };
}

int main(int argc, char** argv)
{
    sim::before_runs = start_python;
    return sim::main_(argc, argv, [](std::string const& p) { return new H(p); });
}
