#!/usr/bin/env python3
"""Content-addressed builder: compiles /repo's current sources and the harnesses into /verif/build.

Every object is keyed by the command line and by the content of every file the compiler read (from its
depfile), so a change anywhere in /repo's sources that can influence an object rebuilds it, and time
stamps play no role. Nothing is written in /repo.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LUE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
GEN = os.path.join(BUILD, "gen")
CXX = "/usr/bin/g++"
VENV = "/opt/lue-venv"

DEFS = {
    "LUE_BUILD_DATA_MODEL": 1, "LUE_DATA_MODEL_WITH_PYTHON_API": 1,
    "LUE_BUILD_QUALITY_ASSURANCE": 1, "LUE_QUALITY_ASSURANCE_WITH_PYTHON_API": 1,
    "LUE_QUALITY_ASSURANCE_WITH_TESTS": 1, "HDF5_IS_THREADSAFE": 1,
}
SUBST = {
    "LUE_FRAMEWORK_ALGORITHM_DEFAULT_POLICIES_ENABLED": "0",
    "LUE_FRAMEWORK_ALGORITHM_DEFAULT_VALUE_POLICIES_ENABLED": "0",
    "LUE_VALIDATE_IDXS": "0", "LUE_ASSERT_CONDITIONS": "0",
    "HDF5_VERSION": "1.10.10", "GDAL_VERSION": "3.8.4", "LUE_VERSION": "0.0.0", "LUE_VERSION_MAJOR": "0", "LUE_VERSION_MINOR": "0",
    "LUE_VERSION_PATCH": "0", "LUE_VERSION_TWEAK": "0",
    "Python_VERSION": "3.12.3", "Python_VERSION_MAJOR": "3", "Python_VERSION_MINOR": "12",
    "Python_VERSION_PATCH": "3",
}
R = REPO + "/source"
INC = ["%s/shared/include" % R, "%s/data_model/hdf5/include" % R, "%s/data_model/cxx/include" % R,
       "%s/data_model/hl/include" % R, "%s/data_model/gdal/include" % R,
       "%s/quality_assurance/cxx/include" % R, GEN]
SYSINC = ["/usr/include/hdf5/serial", "/usr/include/gdal"]
COMMON = ["-std=c++23", "-O1", "-g1", "-fPIC", "-pipe", "-D_GLIBCXX_ASSERTIONS", "-DNDEBUG", "-DH5_USE_110_API",
          "-Wno-mismatched-new-delete", "-Wno-sign-compare"]

_hash_cache = {}


def sha(path):
    h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_cache[path] = h
    return h


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def configure(src, dst):
    out = []
    for line in open(src):
        m = re.match(r"\s*#\s*cmakedefine\s+(\w+)(.*)$", line)
        if m:
            if m.group(1) in DEFS:
                out.append("#define %s%s\n" % (m.group(1), m.group(2)))
            else:
                out.append("/* #undef %s */\n" % m.group(1))
            continue
        m = re.match(r"\s*#\s*cmakedefine01\s+(\w+)", line)
        if m:
            out.append("#define %s %d\n" % (m.group(1), 1 if m.group(1) in DEFS else 0))
            continue
        line = re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda k: SUBST.get(k.group(1) or k.group(2), ""), line)
        out.append(line)
    write_if_changed(dst, "".join(out))


def generate():
    configure(R + "/shared/include/lue/configure.hpp.in", GEN + "/lue/configure.hpp")
    configure(R + "/data_model/hdf5/include/configure.hpp.in", GEN + "/lue/hdf5/configure.hpp")
    configure(R + "/data_model/gdal/include/configure.hpp.in", GEN + "/lue/gdal/configure.hpp")
    configure(R + "/data_model/hdf5/source/version.cpp.in", GEN + "/src/hdf5_version.cpp")
    configure(R + "/data_model/gdal/source/version.cpp.in", GEN + "/src/gdal_version.cpp")
    configure(R + "/shared/source/version.cpp.in", GEN + "/src/lue_version.cpp")
    for name, where in (("hdf5", "lue/hdf5"), ("gdal", "lue/gdal"), ("data_model", "lue/data_model"),
                        ("data_model_hl", "lue/data_model/hl")):
        macros = {"hdf5": ["LUE_HDF5"], "gdal": ["LUE_GDAL"], "data_model": ["LUE_DATA_MODEL"],
                  "data_model_hl": ["LUE_DATA_MODEL_HL"]}[name]
        text = "#pragma once\n"
        for m in macros:
            for suffix, value in (("EXPORT", "__attribute__((visibility(\"default\")))"),
                                  ("NO_EXPORT", "__attribute__((visibility(\"hidden\")))"),
                                  ("DEPRECATED", "__attribute__((__deprecated__))")):
                text += "#define %s_%s %s\n" % (m, suffix, value)
        write_if_changed("%s/%s/export.hpp" % (GEN, where), text)


def generate_framework():
    """What CMake generates for the modelling framework (element types: a representative subset)"""
    g = GEN + "/fw"
    f = R + "/framework"
    lists = {"UnsignedIntegralElements": ["std::uint8_t", "std::uint64_t"], "SignedIntegralElements": ["std::int32_t", "std::int64_t"],
             "FloatingPointElements": ["float", "double"],
             "MaterialElements": ["std::uint8_t", "std::uint64_t", "std::int32_t", "std::int64_t", "float", "double"],
             "ZoneElements": ["std::uint8_t", "std::uint64_t", "std::int32_t", "std::int64_t"], "ranks": ["2"]}
    single = {"BooleanElement": "std::uint8_t", "CountElement": "std::uint64_t", "IDElement": "std::uint64_t",
              "IndexElement": "std::uint64_t", "FlowDirectionElement": "std::uint8_t"}

    def expand(m):
        e = m.group(1).strip()
        if e in single:
            return single[e]
        if e == "ranks | length":
            return str(len(lists["ranks"]))
        names = e.split("|")[0].strip().strip("()").split("+")
        return ", ".join(x for n in names for x in lists[n.strip()])
    src = f + "/core/include/lue/framework/configure.hpp.in"
    write_if_changed(g + "/lue/framework/configure.hpp", re.sub(r"\{\{(.*?)\}\}", expand, open(src).read()))
    src = f + "/partitioned_route/include/lue/framework/partitioned_route/server/serial_route_partition.hpp.in"
    text = open(src).read()
    write_if_changed(g + "/lue/framework/partitioned_route/server/serial_route_partition.hpp", text[:text.index("{%")] if "{%" in text else text)
    for path, macro in (("algorithm/focal_operation_export", "FOCAL_OPERATION"), ("algorithm/global_operation_export", "GLOBAL_OPERATION"),
                        ("algorithm/local_operation_export", "LOCAL_OPERATION"),
                        ("algorithm/miscellaneous_operation_export", "MISCELLANEOUS_OPERATION"),
                        ("algorithm/routing_operation_export", "ROUTING_OPERATION"), ("algorithm/zonal_operation_export", "ZONAL_OPERATION"),
                        ("io/export", "FRAMEWORK_IO"), ("partitioned_array/export", "FPA"), ("partitioned_route/export", "PARTITIONED_ROUTE")):
        write_if_changed("%s/lue/framework/%s.hpp" % (g, path), "#pragma once\n#define LUE_%s_EXPORT\n#define LUE_%s_NO_EXPORT\n" % (macro, macro))


FW_FLAGS = ["-fno-strict-aliasing", "-Wno-unused", "-UNDEBUG",
            "-I" + VERIF + "/sim/minihpx/include", "-I" + VERIF + "/sim/minihpx", "-I" + GEN + "/fw"] + [
    "-I%s/framework/%s/include" % (R, d) for d in ("core", "partitioned_array", "partitioned_route", "algorithm", "model", "io")]


def sources(rel):
    base = os.path.join(R, rel)
    found = sorted(glob.glob(base + "/**/*.cpp", recursive=True))
    return [f for f in found if "/test/" not in f[len(base):]]


LIBS = {
    "hdf5": lambda: sources("data_model/hdf5/source") + [GEN + "/src/hdf5_version.cpp"],
    "cxx": lambda: sources("data_model/cxx/source"),
    "hl": lambda: sources("data_model/hl/source"),
    "gdal": lambda: sources("data_model/gdal/source") + [GEN + "/src/gdal_version.cpp"],
    "translate": lambda: [R + "/data_model/translate/source/" + f for f in ("format/gdal.cpp", "format/lue.cpp", "format/json.cpp", "stack_name.cpp")] + [
        R + "/data_model/utility/source/" + f for f in ("metadata.cpp", "environment.cpp")],
    "shared": lambda: [GEN + "/src/lue_version.cpp"],
    "qa": lambda: sources("quality_assurance/cxx/source"),
    "minihpx": lambda: [VERIF + "/sim/minihpx/runtime.cpp"],
    "fwmodellib": lambda: sources("framework/model/source"),
    "fwio": lambda: sources("framework/io/source"),
    "py": lambda: [f for f in sources("data_model/python/source") if not f.endswith("/python_extension.cpp")],
    "fwwalk": lambda: sources("framework/algorithm/source/routing_operation/walk"),
}


PY_FLAGS = ["-fvisibility=hidden", "-DNPY_NO_DEPRECATED_API=NPY_1_21_API_VERSION", "-I%s/data_model/python/include" % R,
            "-isystem", VENV + "/lib/python3.12/site-packages/pybind11/include", "-isystem", "/usr/include/python3.12"]


TRANSLATE_FLAGS = ["-I%s/data_model/%s/include" % (R, d) for d in ("translate", "utility", "validate")]


# objects whose static variables each simulated process has its own copy of
PRIVATE = "-DSIM_PROCESS_PRIVATE"


def lib_extra(lib):
    if lib == "cxx":
        return ("-I%s/data_model/cxx/source" % R,)
    if lib == "py":
        return tuple(PY_FLAGS)
    if lib == "translate":
        return tuple(TRANSLATE_FLAGS)
    if lib == "fwio":
        return ("-I" + VERIF + "/sim", PRIVATE) + tuple(FW_FLAGS)
    if lib == "minihpx" or lib.startswith("fw"):
        return ("-I" + VERIF + "/sim",) + tuple(FW_FLAGS)
    return ()


def harness_extra(target, src):
    extra = ("-I" + VERIF + "/sim",)
    if target.startswith("fw") and src.startswith("harness/fw"):
        extra += tuple(FW_FLAGS)
    if src.startswith(("harness/translate", "harness/import")):
        extra += tuple(TRANSLATE_FLAGS)
    if src.startswith("harness/py"):
        extra += tuple(PY_FLAGS)
    return extra


HDF5_LINK = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lhdf5_hl"]
GDAL_LINK = ["-lgdal"] + ["-Wl,--wrap=" + s for s in (
        "GDALOpen", "_ZN10GDALDriver6CreateEPKciii12GDALDataTypePKS1_",
        "_ZN10GDALDriver10CreateCopyEPKcP11GDALDatasetiPKS1_PFidS1_PvES6_", "_ZN10GDALDriver6DeleteEPKc",
        "_ZN14GDALRasterBand8RasterIOE10GDALRWFlagiiiiPvii12GDALDataTypexxP20GDALRasterIOExtraArg",
        "_ZN14GDALRasterBand9ReadBlockEiiPv", "_ZN14GDALRasterBand10WriteBlockEiiPv")]
TARGETS = {
    # harness executable: (harness sources, libraries, link flags)
    "model": (["harness/model.cpp", "sim/h5ledger.cpp"], ["shared", "hdf5", "cxx"], HDF5_LINK),
    "h5": (["harness/h5.cpp", "sim/h5ledger.cpp"], ["hdf5"], HDF5_LINK),
    "valid": (["harness/valid.cpp", "sim/h5ledger.cpp"], ["shared", "hdf5", "cxx"], HDF5_LINK),
    "hl": (["harness/hl.cpp", "sim/h5ledger.cpp"], ["shared", "hdf5", "cxx", "hl"], HDF5_LINK),
    "gdal": (["harness/gdal.cpp"], ["gdal"], GDAL_LINK),
    "translate": (["harness/translate.cpp", "sim/h5ledger.cpp"], ["shared", "hdf5", "cxx", "hl", "gdal", "translate"], HDF5_LINK + GDAL_LINK),
    "import": (["harness/import.cpp", "sim/h5ledger.cpp"], ["shared", "hdf5", "cxx", "hl", "gdal", "translate"], HDF5_LINK + GDAL_LINK),
    "qa": (["harness/qa.cpp"], ["qa"], []),
    "fwlocal": (["harness/fwlocal%s.cpp" % x for x in ("", "_arith", "_compare", "_unary", "_zonal")], ["shared", "minihpx"], []),
    "fwfocal": (["harness/fwfocal%s.cpp" % x for x in ("", "_ops", "_terrain", "_clump")], ["shared", "minihpx"], []),
    "fwroute": (["harness/fwroute%s.cpp" % x for x in ("", "_accu", "_threshold", "_fraction", "_trigger", "_capacity", "_wave", "_network", "_order")], ["shared", "minihpx", "fwwalk"], []),
    "fwpart": (["harness/fwpart.cpp"], ["shared", "minihpx"], []),
    "fwcreate": (["harness/fwcreate.cpp"], ["shared", "minihpx"], []),
    "fwmodel": (["harness/fwmodel.cpp"], ["shared", "minihpx", "fwmodellib"], []),
    "fwio": (["harness/fwio.cpp"], ["shared", "hdf5", "cxx", "hl", "minihpx", "fwio"], HDF5_LINK + ["-Wl,--wrap=" + s for s in (
        "H5Fopen", "H5Fclose", "H5Dopen2", "H5Dwrite", "H5Dread", "H5Gopen2", "H5Oopen")]),
    "py": (["harness/py.cpp", "sim/h5ledger.cpp"], ["shared", "hdf5", "cxx", "hl", "py"], HDF5_LINK + ["-lpython3.12"]),
    "multi": (["harness/multi.cpp", "sim/h5ledger.cpp"], ["shared", "hdf5", "cxx"], HDF5_LINK),
}


class BuildError(Exception):
    pass


def compile_one(src, extra):
    name = src.replace(REPO, "repo").replace(VERIF, "verif").strip("/").replace("/", "~")
    key_cmd = hashlib.sha1((" ".join(extra) + "|" + src).encode()).hexdigest()[:10]
    obj = os.path.join(BUILD, "obj", name + "." + key_cmd + ".o")
    meta = obj + ".json"
    cmd = [CXX] + COMMON + extra
    for i in INC:
        cmd += ["-I" + i]
    for i in SYSINC:
        cmd += ["-isystem", i]
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["cmd"] == cmd and all(sha(p) == h for p, h in m["deps"].items()):
                return obj, False, m["key"]
        except (ValueError, KeyError):
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = obj + ".d"
    tmp = obj + ".tmp%d" % os.getpid()
    p = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, p.stdout[-4000:]))
    if PRIVATE in extra:
        subprocess.run(["objcopy", "--set-section-flags", ".bss=alloc,load,contents,data", "--rename-section", ".bss=simprivate_bss",
                        "--rename-section", ".data=simprivate_data,alloc,load,contents,data", tmp], check=True)
    text = open(dep).read().replace("\\\n", " ")
    deps = text.split(":", 1)[1].split()
    # system headers do not change
    deps = sorted({os.path.abspath(d) for d in deps if not d.startswith("/usr/")})
    hashes = {d: sha(d) for d in deps}
    os.replace(tmp, obj)
    os.remove(dep)
    key = hashlib.sha1(json.dumps([cmd, hashes], sort_keys=True).encode()).hexdigest()
    json.dump({"cmd": cmd, "deps": hashes, "key": key}, open(meta, "w"))
    return obj, True, key


def build(targets, jobs=None, quiet=True):
    """Builds the named harness executables; returns {target: path}."""
    _hash_cache.clear()
    generate()
    if any(t.startswith("fw") for t in targets):
        generate_framework()
    jobs = jobs or os.cpu_count() or 4
    todo = {}
    for t in targets:
        hs, libs, link = TARGETS[t]
        for l in libs:
            for s in LIBS[l]():
                todo[(s, lib_extra(l))] = None
        for s in hs + ["sim/simkit.cpp"]:
            todo[(os.path.join(VERIF, s), harness_extra(t, s))] = None
    rebuilt = 0
    # biggest sources first
    order = sorted(todo, key=lambda k: -os.path.getsize(k[0]))
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = {k: ex.submit(compile_one, k[0], list(k[1])) for k in order}
        errors = []
        for k, f in futs.items():
            try:
                todo[k] = f.result()
                rebuilt += todo[k][1]
            except BuildError as e:
                errors.append(str(e))
        if errors:
            raise BuildError("\n".join(errors))
    result = {}
    for t in targets:
        hs, libs, link = TARGETS[t]
        objs = []
        for l in libs:
            for s in LIBS[l]():
                objs.append(todo[(s, lib_extra(l))])
        for s in hs + ["sim/simkit.cpp"]:
            objs.append(todo[(os.path.join(VERIF, s), harness_extra(t, s))])
        exe = os.path.join(BUILD, "bin", t)
        cmd = [CXX, "-rdynamic", "-o", exe + ".tmp%d" % os.getpid()] + [o[0] for o in objs] + link + ["-ldl", "-lpthread"]
        key = hashlib.sha1(json.dumps([link, [o[2] for o in objs]]).encode()).hexdigest()
        stamp = exe + ".key"
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise BuildError("linking %s failed:\n%s" % (t, p.stdout[-4000:]))
            os.replace(exe + ".tmp%d" % os.getpid(), exe)
            open(stamp, "w").write(key)
        result[t] = exe
    if not quiet:
        print("built %s (%d objects, %d recompiled)" % (", ".join(targets), len(todo), rebuilt))
    return result


if __name__ == "__main__":
    try:
        build(sys.argv[1:] or [t for t in TARGETS if all(os.path.exists(os.path.join(VERIF, h)) for h in TARGETS[t][0])], quiet=False)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
