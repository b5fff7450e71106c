// Included by one source of a harness: the seam between LUE and GDAL
#pragma once
#include "simkit.hpp"
#include <gdal_priv.h>

namespace {
    // what GDAL told LUE: calls that failed, and those that were made to fail
    int lib_failed = 0, lib_injected = 0;
}

// The seam between LUE and GDAL: the linker redirects LUE's calls to these
extern "C" {
#define RASTERIO _ZN14GDALRasterBand8RasterIOE10GDALRWFlagiiiiPvii12GDALDataTypexxP20GDALRasterIOExtraArg
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
    CPLErr CAT(__real_, RASTERIO)(GDALRasterBand*, GDALRWFlag, int, int, int, int, void*, int, int, GDALDataType, GSpacing, GSpacing, GDALRasterIOExtraArg*);
    CPLErr CAT(__wrap_, RASTERIO)(GDALRasterBand* b, GDALRWFlag f, int x, int y, int nx, int ny, void* buf, int bx, int by, GDALDataType t, GSpacing ps, GSpacing ls, GDALRasterIOExtraArg* e)
    {
        if (sim::in_sut && sim::library_call(f == GF_Read ? "RasterIO read" : "RasterIO write")) { ++lib_failed; ++lib_injected; return CE_Failure; }
        auto r = CAT(__real_, RASTERIO)(b, f, x, y, nx, ny, buf, bx, by, t, ps, ls, e);
        if (r != CE_None) ++lib_failed;
        return r;
    }
    CPLErr __real__ZN14GDALRasterBand9ReadBlockEiiPv(GDALRasterBand*, int, int, void*);
    CPLErr __wrap__ZN14GDALRasterBand9ReadBlockEiiPv(GDALRasterBand* b, int x, int y, void* buf)
    {
        if (sim::in_sut && sim::library_call("ReadBlock")) { ++lib_failed; ++lib_injected; return CE_Failure; }
        auto r = __real__ZN14GDALRasterBand9ReadBlockEiiPv(b, x, y, buf);
        if (r != CE_None) ++lib_failed;
        return r;
    }
    CPLErr __real__ZN14GDALRasterBand10WriteBlockEiiPv(GDALRasterBand*, int, int, void*);
    CPLErr __wrap__ZN14GDALRasterBand10WriteBlockEiiPv(GDALRasterBand* b, int x, int y, void* buf)
    {
        if (sim::in_sut && sim::library_call("WriteBlock")) { ++lib_failed; ++lib_injected; return CE_Failure; }
        auto r = __real__ZN14GDALRasterBand10WriteBlockEiiPv(b, x, y, buf);
        if (r != CE_None) ++lib_failed;
        return r;
    }
    CPLErr __real__ZN10GDALDriver6DeleteEPKc(GDALDriver*, char const*);
    CPLErr __wrap__ZN10GDALDriver6DeleteEPKc(GDALDriver* d, char const* n)
    {
        if (sim::in_sut && sim::library_call("Delete")) { ++lib_failed; ++lib_injected; return CE_Failure; }
        auto r = __real__ZN10GDALDriver6DeleteEPKc(d, n);
        if (r != CE_None) ++lib_failed;
        return r;
    }
    GDALDatasetH __real_GDALOpen(char const*, GDALAccess);
    GDALDatasetH __wrap_GDALOpen(char const* n, GDALAccess a)
    {
        if (sim::in_sut && sim::library_call("Open")) { ++lib_failed; ++lib_injected; return nullptr; }
        auto r = __real_GDALOpen(n, a);
        if (!r) ++lib_failed;
        return r;
    }
    GDALDataset* __real__ZN10GDALDriver6CreateEPKciii12GDALDataTypePKS1_(GDALDriver*, char const*, int, int, int, GDALDataType, CSLConstList);
    GDALDataset* __wrap__ZN10GDALDriver6CreateEPKciii12GDALDataTypePKS1_(GDALDriver* d, char const* n, int x, int y, int b, GDALDataType t, CSLConstList o)
    {
        if (sim::in_sut && sim::library_call("Create")) { ++lib_failed; ++lib_injected; return nullptr; }
        auto r = __real__ZN10GDALDriver6CreateEPKciii12GDALDataTypePKS1_(d, n, x, y, b, t, o);
        if (!r) ++lib_failed;
        return r;
    }
    GDALDataset* __real__ZN10GDALDriver10CreateCopyEPKcP11GDALDatasetiPKS1_PFidS1_PvES6_(GDALDriver*, char const*, GDALDataset*, int, CSLConstList, GDALProgressFunc, void*);
    GDALDataset* __wrap__ZN10GDALDriver10CreateCopyEPKcP11GDALDatasetiPKS1_PFidS1_PvES6_(GDALDriver* d, char const* n, GDALDataset* s, int t, CSLConstList o, GDALProgressFunc f, void* p)
    {
        if (sim::in_sut && sim::library_call("CreateCopy")) { ++lib_failed; ++lib_injected; return nullptr; }
        auto r = __real__ZN10GDALDriver10CreateCopyEPKcP11GDALDatasetiPKS1_PFidS1_PvES6_(d, n, s, t, o, f, p);
        if (!r) ++lib_failed;
        return r;
    }
}

