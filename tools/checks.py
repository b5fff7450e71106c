"""What each property's check runs: harness, profiles with (quick, thorough) numbers of runs, and what is real."""
MODEL_REAL = ["LUE HDF5 wrapper (lue::hdf5)", "LUE data model (lue::data_model)", "HDF5 1.10.10 with its sec2 driver"]
MODEL_STUB = ["POSIX file calls on the dataset (simulated disk)", "clocks", "allocation failures (operator new)"]
RULE = ("Each seed generates one program over the public interface (%s), settings of the storage library's caches and a "
        "fault schedule; the program runs against the real code on the simulated disk next to a reference model. "
        "A run counts as distinct and non-trivial when its hash over all storage and scheduling events, results and faults is new.")
ASSUME = ["HDF5 1.10.10 and libc behave deterministically given the same calls and results (rechecked on every 40th run)",
          "the simulated disk applies writes in the order they are issued; what the process wrote survives its death (page cache), machine crashes that lose unsynced pages are not simulated because LUE never syncs",
          "what HDF5 does after one of its own failed metadata reads is not held against LUE within that session"]

NOTE = ("Seeded search over programs, storage faults and crash points against the real code on a simulated disk, "
        "compared with a reference model; no exhaustiveness.")

CHECKS = {}


def add(pid, target, what, quick, thorough, real, stub, assumptions=ASSUME, profiles=None, env=None, rule=RULE, note=NOTE):
    CHECKS[pid] = dict(target=target, profiles=profiles or [(pid, quick, thorough)], rule=rule % what, real=real,
                       stub=stub, assumptions=assumptions, env=env, note=note)


for pid, what in {
    "D01": "mostly writing and reading property values",
    "D02": "mostly growing properties",
    "D03": "mostly recording object ids and active sets",
    "D04": "mostly time domains and clocks",
    "D05": "mostly space domains and presence discretisation",
    "D06": "mostly adding to collections",
    "D07": "mostly property sets sharing time domains and trackers, and discretisation links",
    "D08": "mostly rejected additions",
    "D09": "with failing writes, full disks and explicit flushes",
    "D10": "sessions opened for reading with failing storage calls",
    "D11": "with process deaths at arbitrary storage events and restarts",
    "D12": "sessions opened for reading, with attempts to modify, and in-memory datasets",
    "D13": "holding handles beyond their parents, with failing storage calls and allocations",
}.items():
    add(pid, "model", what, 9000, 400000, MODEL_REAL, MODEL_STUB)

H5_REAL = ["LUE HDF5 wrapper (lue::hdf5)", "HDF5 1.10.10 with its sec2 driver"]
for pid, what in {
    "H01": "mostly writing, filling, reading and resizing arrays through arbitrary selections",
    "H02": "mostly writing and overwriting attributes of all types and lengths",
    "H03": "mostly creating groups, arrays and links in two files, and looking them up",
    "H04": "mostly copying, assigning, moving, swapping and dropping handles",
}.items():
    add(pid, "h5", what, 16000, 800000, H5_REAL, MODEL_STUB)

GDAL_REAL = ["LUE GDAL wrapper (lue::gdal)", "GDAL 3.8.4 with its GeoTIFF, ENVI, HFA, PCRaster and memory drivers"]
GDAL_STUB = ["POSIX and stdio file calls on rasters (simulated disk)", "outcome of GDAL calls that are made to fail (link seam)"]
GDAL_ASSUME = ["GDAL 3.8.4 and libc behave deterministically given the same calls and results (rechecked on every 40th run)",
               "storage failures GDAL does not pass on to its caller are not held against LUE; reads do not fail while GDAL updates a raster, because GDAL itself corrupts memory or content then"]
for pid, what in {
    "G01": "mostly writing and reading cells and copying rasters",
    "G02": "with failing storage calls and failing GDAL calls",
    "G03": "mostly comparing rasters that differ in at most one aspect",
}.items():
    add(pid, "gdal", what, 16000, 600000, GDAL_REAL, GDAL_STUB, GDAL_ASSUME)

QA_REAL = ["LUE quality assurance library (lue::qa)", "libstdc++ streams, nlohmann-json"]
QA_STUB = ["wall and monotonic clock", "POSIX and stdio file calls (simulated disk)", "allocation failures (operator new)"]
QA_ASSUME = ["libstdc++ and libc behave deterministically given the same calls and results (rechecked on every 40th run)"]
for pid, what in {
    "Q01": "mostly starting and stopping runs while clocks jump and the process stalls",
    "Q02": "mostly saving results with failing storage calls and process deaths",
}.items():
    add(pid, "qa", what, 60000, 4000000, QA_REAL, QA_STUB, QA_ASSUME)

VALID_REAL = ["LUE validation of datasets (lue::data_model::validate, assert_is_valid)", "LUE data model (lue::data_model)", "LUE HDF5 wrapper (lue::hdf5)", "HDF5 1.10.10 with its sec2 driver"]
for pid, what in {
    "D14": "filling property sets of all kinds step by step, in one go or interrupted, and validating the dataset in the same session or after reopening",
    "D15": "filling property sets, introducing a single inconsistency or stopping half-way, and validating the dataset",
}.items():
    add(pid, "valid", what, 4000, 400000, VALID_REAL, MODEL_STUB)

HL_REAL = ["LUE raster views (lue::data_model::constant, variable)", "LUE data model and validation", "LUE HDF5 wrapper", "HDF5 1.10.10 with its sec2 driver"]
add("R01", "hl", "creating and opening raster views, adding, writing and reading layers through several views, probing, copying views", 6000, 400000, HL_REAL, MODEL_STUB)

FW_REAL = ["LUE framework headers and sources (lue::PartitionedArray, partitions and their component servers, algorithms, policies, serialisation of partition data)"]
FW_STUB = ["HPX: futures, dataflow, actions, components, AGAS, collectives and parcels are /verif/sim/minihpx, in which all localities live in one process and the simulator picks the next lightweight thread and when each parcel arrives",
           "std::random_device"]
FW_ASSUME = ["HPX delivers every parcel exactly once, in any order: lost and duplicated messages are not simulated, HPX's parcelports are reliable and LUE is not written to survive their failure",
             "lightweight threads are switched where they suspend, take a lock or start or finish a task; data races within such stretches are not simulated"]
FW_RULE = ("Each seed generates one program over the framework's interface (%s), array and partition shapes, the number of localities "
           "and a schedule; the program runs against the real framework code on the simulated runtime next to a sequential reference. "
           "A run counts as distinct and non-trivial when its hash over all scheduling and message events, results and faults is new.")
FW_NOTE = ("Seeded search over programs, task orders, preemptions, stalled localities and message delays against the real framework code on a "
           "simulated HPX runtime, compared with a sequential reference; no exhaustiveness.")
for pid, target, what, quick, thorough in [
    ("F01", "fwlocal", "local, reducing, zonal and conditional operations on partitioned arrays of all partition shapes over several localities, while tasks are reordered, preempted and stalled and parcels delayed", 60000, 6000000),
    ("F02", "fwfocal", "focal, slope and aspect, resampling and clump operations with kernels of several sizes on partitioned arrays, while tasks are reordered, preempted and stalled and parcels delayed", 16000, 2000000),
    ("F03", "fwroute", "accumulation (plain, threshold, fraction, trigger, capacity, kinematic wave), upstream, downstream, distances, inflow counts and routes in decreasing order over random flow networks on partitioned arrays, while tasks are reordered, preempted and stalled and parcels delayed", 16000, 2000000),
    ("F04", "fwmodel", "runs of models (single, deterministic, stochastic) with all rate limits, steps that finish at once, later, out of order, only when the last allowed step has started, by array operations, or with an exception, and stages that throw, while tasks are reordered, preempted and stalled", 60000, 8000000),
]:
    add(pid, target, what, quick, thorough, FW_REAL, FW_STUB, FW_ASSUME, rule=FW_RULE, note=FW_NOTE)
add("F06", "fwpart", "partitions, partition data, arguments and results sent between localities, copied, moved, sliced, reshaped, erased, filled and replaced, at once or asynchronously, and used by code on other localities, while tasks are reordered, preempted and stalled and parcels delayed",
    60000, 8000000, FW_REAL, FW_STUB, FW_ASSUME, rule=FW_RULE, note=FW_NOTE)
add("F07", "fwcreate", "arrays of random values, noise, cell numbers and coordinates made in every form (like an array, of a shape, of a shape and partition shape, a single value), with parameters that become available later, and arrays with one value per partition, while tasks are reordered, preempted and stalled and parcels delayed",
    60000, 8000000, FW_REAL, FW_STUB, FW_ASSUME + ["the numbers std::random_device hands out differ from each other"], rule=FW_RULE, note=FW_NOTE)
add("F05", "fwio", "arrays written to and read from constant and time-varying layers of one or two datasets (whole and part of the area) by requests that overlap in time, while tasks are reordered, preempted also within calls of the storage library, localities stalled, parcels delayed and files cannot be opened, locked or read",
    4000, 400000, FW_REAL + HL_REAL, FW_STUB + ["POSIX and stdio file calls (simulated disk, every locality counting as an operating system process of its own)"],
    FW_ASSUME + ["each locality has its own copy of the static memory of LUE's io library, as separate processes would",
                 "failing writes are not injected: the data model's handles drop the status of closing (known finding of D09)"],
    rule=FW_RULE, note=FW_NOTE)

PY_REAL = ["LUE's Python bindings of the data model (pybind11)", "LUE data model (lue::data_model)", "LUE HDF5 wrapper (lue::hdf5)", "HDF5 1.10.10 with its sec2 driver", "CPython 3.12 and NumPy"]
PY_RULE = ("Each seed generates a sequence of Python operations (%s) and a set of storage failures; an embedded interpreter performs "
           "them through the real bindings, next to a reference. A run counts as distinct and non-trivial when its hash over all storage calls, results and faults is new.")
add("P01", "py", "reading and assigning arrays of all element types and ranks and arrays of strings through index expressions of all kinds, expanding, reopening and dropping them, with values of all types and layouts", 8000, 600000, PY_REAL, MODEL_STUB,
    ["CPython and NumPy behave deterministically given the same calls and results (rechecked on every 40th run)"], rule=PY_RULE,
    note="Seeded search over Python programs and storage failures against the real bindings, compared with NumPy and the stored bytes; no exhaustiveness.")

add("P02", "py", "obtaining objects of a dataset from each other along all routes, often dropping those in between at once, leaving some to the garbage collector, adding, growing, writing, and reusing memory that was given back", 1800, 150000, PY_REAL, MODEL_STUB,
    ["CPython and NumPy behave deterministically given the same calls and results (rechecked on every 40th run)", "memory given back is overwritten by the allocator, so that using it shows"], rule=PY_RULE,
    note="Seeded search over Python programs, orders of dropping and collecting, and storage failures against the real bindings; content compared with what was stored, open files and HDF5 objects counted; no exhaustiveness.")

add("D16", "multi", "two to four processes creating, opening, reading, modifying, flushing and releasing one or two datasets, from one storage call to the next in any order, some of which are killed or exit with handles open", 6000, 400000,
    MODEL_REAL + ["operating system processes, each with its own LUE and HDF5 library"], MODEL_STUB + ["flock between processes (simulated disk)", "which process runs (one at a time, switched at storage calls)"],
    ASSUME[:1] + ["processes are switched at storage calls only: they share nothing but the disk",
                  "a dataset is not created anew in place of one that another process has open or is opening: HDF5 empties the file before it tries to lock it"],
    note="Seeded search over programs of several processes, their interleaving at storage calls, their deaths and storage faults, against the real code on a simulated disk; no exhaustiveness.")

TRANSLATE_REAL = ["lue_translate's format translators (lue::utility)", "LUE GDAL wrapper (lue::gdal)", "LUE data model (lue::data_model)", "LUE HDF5 wrapper (lue::hdf5)",
                  "HDF5 1.10.10 with its sec2 driver", "GDAL 3.8.4 with its GeoTIFF and other drivers"]
TRANSLATE_STUB = ["POSIX and stdio file calls on datasets, rasters and documents (simulated disk)", "outcome of GDAL calls that are made to fail (link seam)", "lue_translate's command line (cxxopts is not installed): the translators are called"]
TRANSLATE_ASSUME = ["GDAL 3.8.4, HDF5 1.10.10 and libc behave deterministically given the same calls and results (rechecked on every 40th run)",
                    "storage failures GDAL or closing HDF5 objects do not pass on to their caller are not held against LUE"]
add("T01", "translate", "importing rasters and stacks of rasters of all types, with and without metadata, to new and existing datasets, exporting them in various formats, rasters being absent, damaged or unfit", 1600, 120000,
    TRANSLATE_REAL, TRANSLATE_STUB, TRANSLATE_ASSUME)
add("T02", "import", "importing JSON documents describing universes, phenomena, property sets, domains, trackers and properties of all kinds, with values from rasters, to new and existing datasets, documents being damaged or unfit", 1600, 120000,
    TRANSLATE_REAL + ["nlohmann-json"], TRANSLATE_STUB, TRANSLATE_ASSUME)

NOT_APPLICABLE = {}
