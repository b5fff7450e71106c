#!/usr/bin/env python3
"""Writes known-findings.json (run by hand; no check writes it)."""
import json, os
findings = [
    dict(property="D09", **{"class": "wrong-value"}, replay="findings/D09-close-swallowed.json",
         call_site="source/data_model/hdf5/source/identifier.cpp, closing of an object in the destructor of the last handle",
         history="full disk or failing write while HDF5 closes an array (writes back its chunk cache), then a successful flush",
         what="an error while closing an array (H5Dclose writing back its chunks) is swallowed by the handle's destructor: "
              "the write and the following flush succeed although the value is lost"),
    dict(property="F03", **{"class": "assertion"}, replay="findings/F03-thin-partitions.json",
         call_site="source/framework/algorithm/include/lue/framework/algorithm/definition/inflow_count.hpp and detail/inflow_count.hpp, corners of partitions",
         history="routing over an array of several partitions that have a single row or column",
         what="routing over partitions of a single row or column which border on other ones: such a cell is two corners at once, "
              "inflow over the border is registered twice or sent to the wrong neighbour (assertion, wrong results or no end)"),
]
fixed = [
    "fixed: property=D04 3298e15 clocks whose epochs differ compared equal",
    "fixed: property=D13 7e05784 asking an attribute for its type or value left a datatype of the file open",
    "fixed: property=D02 1d8c1c2 expanding a different-shape property of rank 0 or above 2 wrote nothing or failed",
    "fixed: property=D10 25d9079 a failing read made stored attributes and links look absent",
    "fixed: property=H01 8eb3252 filling a strided selection failed",
    "fixed: property=H02 2f01d5d overwriting a text or list attribute by one of another length truncated it or read past its end",
    "fixed: property=H02 93df5dc writing an empty list attribute failed and left the attribute behind",
    "fixed: property=G01 72127cc cells written by blocks and by windows did not see, or overwrote, each other",
    "fixed: property=G01 370c528 bands with 8 bit signed and 64 bit integers could not be compared or were read through another type",
    "fixed: property=G03 88690e8 rasters with partial blocks or different block layouts were compared cell by wrong cell",
    "fixed: property=Q02 61c3524 failing writes were ignored, leaving empty or truncated results that were reported as saved",
    "fixed: property=R01 24115b8 creating a variable raster in a phenomenon with an object tracked another object",
    "fixed: property=F01 fe9aa17 indices of cells along a dimension ignored the shape of the partitions",
    "fixed: property=F02 987fbd4 downscaling read wrong cells from border partitions that are larger than the others",
    "fixed: property=F02 5b31861 parts of one clump kept different ids",
    "fixed: property=F03 cd77aab first_n finished an output partition twice when the walk was done before the partition was asked for",
    "fixed: property=F03 0040e77 routes in decreasing order skipped zero and negative floating-point values",
    "fixed: property=F03 5a56409 decreasing_order without valid values used the front of an empty collection",
    "fixed: property=F03 9b464b2 decreasing_order returned an invalid route partition when sorting was done before the partition was asked for",
    "fixed: property=F04 514b388 one time step more than the rate limit allows was started",
    "fixed: property=F04 d83c00d time steps in flight signalled a semaphore that was gone after a stage threw an exception",
    "fixed: property=D13 4dd2321 an exception thrown through H5Literate left objects open in HDF5",
    "fixed: property=F05 72027a3 localities without partitions did not take part in reading and writing, later requests never finished",
    "fixed: property=F05 4bca730 a request was finished while its dataset was still open",
    "fixed: property=F05 d70b22c from_lue opened datasets which were still being written to",
    "fixed: property=F05 7110a70 a call to from_lue was finished before the calls before it",
    "fixed: property=F05 0902f09 reading a constant array was finished while other localities had the dataset open",
    "fixed: property=F05 4809ab1 to_lue ignored that writing failed",
    "fixed: property=F06 6c28d8a moving to partition data emptied the data it shared its elements with",
    "fixed: property=F06 708d709 reshaping an array after elements had been removed from it failed",
    "fixed: property=P01 4cb25ad arrays with 16-bit integers could not be read",
    "fixed: property=P01 777a1ea assigning an array to one index read past the end of too small arrays",
    "fixed: property=P01 82e2879 lists and arrays used as index selected by dimension",
    "fixed: property=P01 c306148 strings read were not the ones selected, or crashed",
    "fixed: property=P01 c77bf5b strings assigned to part of an array ended up elsewhere",
    "fixed: property=P01 479726a values were converted to 8-bit integers while assigning, or refused because of their layout",
    "fixed: property=P02 f02c110 phenomena, property sets and properties obtained by attribute, by index or from add_property were used after the dataset was gone",
    "fixed: property=P02 969fc78 what was added to a phenomenon of a universe was not found through the universe",
    "fixed: property=P02 1352c7e values whose shapes differ did not know about objects added through the result of expand",
    "fixed: property=T01 ffea2d7 rasters whose cells are square but for rounding were refused",
    "fixed: property=T01 565e6dd cells of rasters stored in several blocks were lost or misplaced when imported or exported",
    "fixed: property=T01 c2aa21e rasters could not be added to an existing dataset",
    "fixed: property=T01 732f1dc layers of 8 bit signed integers could not be exported",
    "fixed: property=T01 a16c018 rasters of another extent were added to a property set as if they had its extent",
    "fixed: property=T02 9a4c761 space boxes taken from rasters extended north of the raster instead of south",
    "fixed: property=T02 9c7d66b importing strings crashed",
    "fixed: property=T02 260e97d indices of active objects overwrote those imported before",
    "fixed: property=T02 aaf5877 values not fitting the shape or type of the property were read past their end and stored",
    "fixed: property=T02 bb55e73 properties of phenomena in universes could not refer to others by path",
    "fixed: property=D15 74118e2 validating values per object read past the end when indices of active objects were missing",
    "fixed: property=F07 b936dd7 range gave cells below a larger last partition numbers that were in use already",
    "fixed: property=F07 b126d90 results of larger last partitions were positioned on top of those of other partitions",
]
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json")
with open(p, "w") as f:
    json.dump(dict(findings=findings, fixed=fixed), f, indent=1)
    f.write("\n")
