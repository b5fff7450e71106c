From 3298e153ef244d8e45b098299409fff01f78f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 01/52] fix: Compare the epochs when comparing clocks

---
 source/data_model/cxx/include/lue/core/time/epoch.hpp | 2 ++
 source/data_model/cxx/source/core/clock.cpp           | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/data_model/cxx/include/lue/core/time/epoch.hpp b/source/data_model/cxx/include/lue/core/time/epoch.hpp
index 998022b..754d853 100644
--- a/source/data_model/cxx/include/lue/core/time/epoch.hpp
+++ b/source/data_model/cxx/include/lue/core/time/epoch.hpp
@@ -60,6 +60,8 @@ namespace lue::data_model::time {
 
             auto operator=(Epoch&& other) -> Epoch& = default;
 
+            auto operator==(Epoch const& other) const -> bool = default;
+
             auto kind() const -> Kind;
 
             auto origin() const -> std::optional<std::string> const&;
diff --git a/source/data_model/cxx/source/core/clock.cpp b/source/data_model/cxx/source/core/clock.cpp
index 3baa29e..4a40b76 100644
--- a/source/data_model/cxx/source/core/clock.cpp
+++ b/source/data_model/cxx/source/core/clock.cpp
@@ -41,7 +41,7 @@ namespace lue::data_model {
 
     auto Clock::operator==(Clock const& other) const -> bool
     {
-        return _unit == other._unit && _nr_units == other._nr_units;
+        return _epoch == other._epoch && _unit == other._unit && _nr_units == other._nr_units;
     }
 
 
-- 
2.43.0


From 7e0578475e6f4d203d09bd99a4844264a7b8588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 02/52] fix: Close the datatype obtained from an attribute

---
 source/data_model/hdf5/source/attribute.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/data_model/hdf5/source/attribute.cpp b/source/data_model/hdf5/source/attribute.cpp
index 5ddef63..48374f4 100644
--- a/source/data_model/hdf5/source/attribute.cpp
+++ b/source/data_model/hdf5/source/attribute.cpp
@@ -10,7 +10,7 @@ namespace lue::hdf5 {
     Attribute::Attribute(Identifier&& id):
 
         _id{std::move(id)},
-        _datatype{H5Aget_type(_id)},
+        _datatype{Identifier{H5Aget_type(_id), H5Tclose}},
         _dataspace{H5Aget_space(_id)}
 
     {
@@ -26,7 +26,7 @@ namespace lue::hdf5 {
     Attribute::Attribute(Identifier const& location, std::string const& name):
 
         _id(H5Aopen(location, name.c_str(), H5P_DEFAULT), H5Aclose),
-        _datatype{H5Aget_type(_id)},
+        _datatype{Identifier{H5Aget_type(_id), H5Tclose}},
         _dataspace{H5Aget_space(_id)}
 
     {
-- 
2.43.0


From 1d8c1c2fbc9e7db8a97647b8acb77c98080de13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 03/52] fix: Support all ranks when expanding different-shape
 values

---
 source/data_model/cxx/source/array/different_shape/value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/cxx/source/array/different_shape/value.cpp b/source/data_model/cxx/source/array/different_shape/value.cpp
index 5e9d295..a0fedac 100644
--- a/source/data_model/cxx/source/array/different_shape/value.cpp
+++ b/source/data_model/cxx/source/array/different_shape/value.cpp
@@ -77,7 +77,7 @@ namespace lue::data_model::different_shape {
         for (Index object_idx = 0, shape_idx = 0; object_idx < nr_objects; ++object_idx, shape_idx += rank)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-            expand_core(ids[object_idx], hdf5::Shape{shapes[shape_idx], shapes[shape_idx + 1]});
+            expand_core(ids[object_idx], hdf5::Shape(shapes + shape_idx, shapes + shape_idx + rank));
         }
 
         _nr_objects += nr_objects;
-- 
2.43.0


From 25d90794aeac1325e40a864c5a5436767b5c9c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 04/52] fix: Report failing to determine whether attributes and
 links exist

---
 source/data_model/hdf5/source/attributes.cpp | 17 +++++++++++-
 source/data_model/hdf5/source/link.cpp       | 28 +++++++++++++++++++-
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/source/data_model/hdf5/source/attributes.cpp b/source/data_model/hdf5/source/attributes.cpp
index 61099c0..d917efe 100644
--- a/source/data_model/hdf5/source/attributes.cpp
+++ b/source/data_model/hdf5/source/attributes.cpp
@@ -1,3 +1,5 @@
+#include <format>
+#include <stdexcept>
 #include <utility>
 
 #include "lue/hdf5/attributes.hpp"
@@ -33,10 +35,23 @@ namespace lue::hdf5 {
     /*!
         @brief      Return whether an attribute named @a name is present
                     in the layered object
+        @exception  std::runtime_error In case it cannot be determined whether the attribute is present
     */
     auto Attributes::exists(std::string const& name) const -> bool
     {
-        return H5Aexists(_id, name.c_str()) > 0;
+        if (name.empty())
+        {
+            return false;
+        }
+
+        htri_t const status{H5Aexists(_id, name.c_str())};
+
+        if (status < 0)
+        {
+            throw std::runtime_error(std::format("Cannot determine whether attribute {} exists", name));
+        }
+
+        return status > 0;
     }
 
 
diff --git a/source/data_model/hdf5/source/link.cpp b/source/data_model/hdf5/source/link.cpp
index d4a64b2..32c1183 100644
--- a/source/data_model/hdf5/source/link.cpp
+++ b/source/data_model/hdf5/source/link.cpp
@@ -2,6 +2,7 @@
 #include "lue/hdf5/group.hpp"
 #include <cassert>
 #include <format>
+#include <stdexcept>
 #include <utility>
 
 
@@ -41,9 +42,34 @@ namespace lue::hdf5 {
     }
 
 
+    /*!
+        @brief      Return whether a link named @a name exists
+        @exception  std::runtime_error In case it cannot be determined whether the link exists
+    */
     auto link_exists(Identifier const& id, std::string const& name) -> bool
     {
-        return H5Lexists(id, name.c_str(), H5P_DEFAULT) > 0;
+        auto const exists = [&id](std::string const& pathname) -> bool
+        {
+            htri_t const status{H5Lexists(id, pathname.c_str(), H5P_DEFAULT)};
+
+            if (status < 0)
+            {
+                throw std::runtime_error(std::format("Cannot determine whether link {} exists", pathname));
+            }
+
+            return status > 0;
+        };
+
+        // In case of a path, all elements leading to the link must exist
+        for (auto pos = name.find('/', 1); pos != std::string::npos; pos = name.find('/', pos + 1))
+        {
+            if (!exists(name.substr(0, pos)))
+            {
+                return false;
+            }
+        }
+
+        return !name.empty() && exists(name);
     }
 
 
-- 
2.43.0


From 4dd2321c4c2667f485fecbef5a539f21bdac5044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 05/52] fix: Keep exceptions from passing through the HDF5
 library

---
 source/data_model/hdf5/source/group.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/source/data_model/hdf5/source/group.cpp b/source/data_model/hdf5/source/group.cpp
index 9835a60..047bbcf 100644
--- a/source/data_model/hdf5/source/group.cpp
+++ b/source/data_model/hdf5/source/group.cpp
@@ -30,9 +30,25 @@ namespace lue::hdf5 {
 
                 using Names = std::vector<std::string>;
 
-                void add(std::string name)
+                /*!
+                    @brief      Add @a name to the collection
+                    @return     A negative value in case of an error
+
+                    This function is called by callbacks that are called by the HDF5 library. Exceptions must not
+                    pass through it: it would not get a chance to release the objects it is using.
+                */
+                auto add(char const* name) noexcept -> herr_t
                 {
-                    _names.emplace_back(std::move(name));
+                    try
+                    {
+                        _names.emplace_back(name);
+                    }
+                    catch (...)
+                    {
+                        return -1;
+                    }
+
+                    return 0;
                 }
 
                 auto names() && -> Names&&
@@ -60,7 +76,7 @@ namespace lue::hdf5 {
 
             if (infobuf.type == H5O_TYPE_GROUP || infobuf.type == H5O_TYPE_DATASET)
             {
-                static_cast<ObjectNameCollector*>(data)->add(name);
+                return static_cast<ObjectNameCollector*>(data)->add(name);
             }
 
             return 0;
@@ -81,7 +97,7 @@ namespace lue::hdf5 {
 
             if (infobuf.type == H5O_TYPE_GROUP)
             {
-                static_cast<ObjectNameCollector*>(data)->add(name);
+                return static_cast<ObjectNameCollector*>(data)->add(name);
             }
 
             return 0;
-- 
2.43.0


From 8eb325217db7581ebd744d3c92b1b97dc15f4343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 06/52] fix: number of elements in strided hyperslab

The number of elements selected by a hyperslab is the product of the counts. Multiplying by the strides made
Dataset::fill pass a memory dataspace of the wrong size, and fail, for every strided selection.
---
 source/data_model/hdf5/source/hyperslab.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/hdf5/source/hyperslab.cpp b/source/data_model/hdf5/source/hyperslab.cpp
index 7d3952a..81d8895 100644
--- a/source/data_model/hdf5/source/hyperslab.cpp
+++ b/source/data_model/hdf5/source/hyperslab.cpp
@@ -155,7 +155,7 @@ namespace lue::hdf5 {
 
             for (std::size_t i = 0; i < nr_dimensions(); ++i)
             {
-                result *= (_stride[i] * _count[i]);
+                result *= _count[i];
             }
         }
 
-- 
2.43.0


From 2f01d5dc20c56cfce3c4d60ee8af97b8fabf71f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 07/52] fix: overwrite text and array attributes by values of
 another size

An attribute holds a text or array of the size it was created for. Writing a longer one silently stored only the
first part, and writing a shorter one read past the end of the value. Replace the attribute in these cases.
---
 .../hdf5/include/lue/hdf5/attributes.hpp      | 48 ++++++++++++++++++-
 source/data_model/hdf5/source/attributes.cpp  | 22 +++++++++
 2 files changed, 68 insertions(+), 2 deletions(-)

diff --git a/source/data_model/hdf5/include/lue/hdf5/attributes.hpp b/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
index b5dd6c8..f77703d 100644
--- a/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
@@ -22,7 +22,9 @@ namespace lue::hdf5 {
             /*!
                 @brief      Store @a value of attribute @a name
 
-                In case no attribute named @a name exists, it is created.
+                In case no attribute named @a name exists, it is created. In case the existing attribute
+                cannot hold @a value because it was created for a text or array of a different size, it is
+                replaced.
             */
             template<typename T>
             void write(std::string const& name, T const& value)
@@ -35,7 +37,7 @@ namespace lue::hdf5 {
                 }
                 else
                 {
-                    attribute(name).write<T>(value);
+                    overwrite(name, value);
                 }
             }
 
@@ -59,6 +61,48 @@ namespace lue::hdf5 {
 
         private:
 
+            template<typename T>
+                requires(!std::is_base_of_v<std::vector<::hsize_t>, T>)
+            void overwrite(std::string const& name, T const& value)
+            {
+                attribute(name).write<T>(value);
+            }
+
+
+            void overwrite(std::string const& name, std::string const& value)
+            {
+                if (datatype(name).size() == value.size())
+                {
+                    attribute(name).write<std::string>(value);
+                }
+                else
+                {
+                    replace(name, create_datatype(value.size()), Dataspace{H5S_SCALAR}).write(value);
+                }
+            }
+
+
+            template<typename T>
+            void overwrite(std::string const& name, std::vector<T> const& value)
+            {
+                if (attribute(name).dataspace().nr_elements() == static_cast<hssize_t>(value.size()))
+                {
+                    attribute(name).write<std::vector<T>>(value);
+                }
+                else
+                {
+                    replace(
+                        name,
+                        Datatype{NativeDatatypeTraits<T>::type_id()},
+                        create_dataspace(Shape{value.size()}))
+                        .write(value);
+                }
+            }
+
+
+            auto replace(std::string const& name, Datatype const& file_datatype, Dataspace const& dataspace)
+                -> Attribute;
+
             //! Identifier of object owning the attributes
             Identifier _id;
     };
diff --git a/source/data_model/hdf5/source/attributes.cpp b/source/data_model/hdf5/source/attributes.cpp
index d917efe..bf91826 100644
--- a/source/data_model/hdf5/source/attributes.cpp
+++ b/source/data_model/hdf5/source/attributes.cpp
@@ -67,6 +67,28 @@ namespace lue::hdf5 {
     }
 
 
+    /*!
+        @brief      Replace the attribute named @a name by a new one
+        @param      name Name of attribute
+        @param      datatype In-file datatype of the value
+        @param      dataspace Dataspace of the value
+        @exception  std::runtime_error In case the existing attribute cannot be removed, or the new one
+                    cannot be created
+    */
+    auto Attributes::replace(
+        std::string const& name, Datatype const& datatype, Dataspace const& dataspace) -> Attribute
+    {
+        herr_t const status{H5Adelete(_id, name.c_str())};
+
+        if (status < 0)
+        {
+            throw std::runtime_error(std::format("Cannot remove attribute {}", name));
+        }
+
+        return add(name, datatype, dataspace);
+    }
+
+
     /*!
         @brief      Return the datatype of the attribute named @a name
     */
-- 
2.43.0


From 93df5dcc07601f95a646db769930961133f574af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 08/52] fix: write and read empty array attributes

The HDF5 library does not accept a null buffer, which made writing an empty array fail after the attribute was
created.
---
 .../data_model/hdf5/include/lue/hdf5/attribute.hpp   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/data_model/hdf5/include/lue/hdf5/attribute.hpp b/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
index 6c6f486..03ddda3 100644
--- a/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
@@ -61,6 +61,12 @@ namespace lue::hdf5 {
 
             value.resize(nr_elements);
 
+            if (value.empty())
+            {
+                // Nothing to read, and no buffer to pass to the HDF5 library
+                return;
+            }
+
             herr_t const status{H5Aread(id, datatype.id(), value.data())};
             assert(value.size() == static_cast<std::size_t>(nr_elements));
 
@@ -100,6 +106,12 @@ namespace lue::hdf5 {
         template<typename T>
         void write_attribute(Identifier const& id, Datatype const& datatype, std::vector<T> const& value)
         {
+            if (value.empty())
+            {
+                // Nothing to write, and no buffer to pass to the HDF5 library
+                return;
+            }
+
             herr_t const status{H5Awrite(id, datatype.id(), value.data())};
 
             if (status < 0)
-- 
2.43.0


From 72127cca8c7b4c89910fd6e3a5fb236ac6719cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:43 +0000
Subject: [PATCH 09/52] fix: Keep block I/O and window I/O on a raster band
 consistent

GDAL's ReadBlock and WriteBlock bypass the block cache RasterIO uses. Cells
written by one were not seen, or were overwritten, by the other.
---
 source/data_model/gdal/source/raster_band.cpp | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/source/data_model/gdal/source/raster_band.cpp b/source/data_model/gdal/source/raster_band.cpp
index 7b8fc5b..c6c9060 100644
--- a/source/data_model/gdal/source/raster_band.cpp
+++ b/source/data_model/gdal/source/raster_band.cpp
@@ -32,8 +32,16 @@ namespace lue::gdal {
 
     auto read_block(GDALRasterBand& band, Offset const& block_offset, void* buffer) -> void
     {
+        // ReadBlock bypasses GDAL's block cache. Cells written by RasterIO may not be part of the block yet.
+        auto cpl_status = band.FlushCache(false);
+
+        if (cpl_status != CE_None)
+        {
+            throw std::runtime_error("Cannot flush cells written to GDAL raster band");
+        }
+
         auto const [offset_y, offset_x] = block_offset;
-        auto cpl_status = band.ReadBlock(offset_x, offset_y, buffer);
+        cpl_status = band.ReadBlock(offset_x, offset_y, buffer);
 
         if (cpl_status != CE_None)
         {
@@ -44,8 +52,17 @@ namespace lue::gdal {
 
     auto write_block(GDALRasterBand& band, Offset const& block_offset, void* buffer) -> void
     {
+        // WriteBlock bypasses GDAL's block cache. Blocks in the cache must neither overwrite the block
+        // afterwards, nor be returned by RasterIO instead of it.
+        auto cpl_status = band.FlushCache(false);
+
+        if (cpl_status != CE_None)
+        {
+            throw std::runtime_error("Cannot flush cells written to GDAL raster band");
+        }
+
         auto const [offset_y, offset_x] = block_offset;
-        auto cpl_status = band.WriteBlock(offset_x, offset_y, buffer);
+        cpl_status = band.WriteBlock(offset_x, offset_y, buffer);
 
         if (cpl_status != CE_None)
         {
-- 
2.43.0


From 370c528431c855dfdb38e9012af818b5dc86963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:43 +0000
Subject: [PATCH 10/52] fix: Include GDAL configuration before depending on it

Without it, bands with 8 bit signed or 64 bit integers are not supported by
the functions that pick a type based on LUE_GDAL_SUPPORTS_*.
---
 source/data_model/gdal/include/lue/gdal/raster_band.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/data_model/gdal/include/lue/gdal/raster_band.hpp b/source/data_model/gdal/include/lue/gdal/raster_band.hpp
index cd4f050..f78615b 100644
--- a/source/data_model/gdal/include/lue/gdal/raster_band.hpp
+++ b/source/data_model/gdal/include/lue/gdal/raster_band.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include "lue/gdal/configure.hpp"
 #include "lue/gdal/define.hpp"
 #include "lue/gdal/export.hpp"
 #include <gdal_priv.h>
-- 
2.43.0


From 88690e8b586c133130ffd17bc0c33f53e018f0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:43 +0000
Subject: [PATCH 11/52] fix: Compare rasters whose blocks differ or are
 partially filled

Blocks were addressed with swapped indices, invalid cells in partial blocks
were taken into account, and the second raster was read using the block
layout of the first.
---
 .../gdal/include/lue/gdal/raster.hpp           |  3 +++
 .../data_model/gdal/source/compare_rasters.cpp | 18 +++++++++++++-----
 source/data_model/gdal/source/raster.cpp       |  7 +++++++
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/source/data_model/gdal/include/lue/gdal/raster.hpp b/source/data_model/gdal/include/lue/gdal/raster.hpp
index fc9a267..f5001cd 100644
--- a/source/data_model/gdal/include/lue/gdal/raster.hpp
+++ b/source/data_model/gdal/include/lue/gdal/raster.hpp
@@ -67,6 +67,9 @@ namespace lue::gdal {
 
                     auto read(void* buffer) -> void;
 
+                    auto read(Offset const& offset, Shape const& shape, GDALDataType data_type, void* buffer)
+                        -> void;
+
                     auto write(void* buffer) -> void;
 
                     auto write(Offset const& offset, Shape const& shape, GDALDataType data_type, void* buffer)
diff --git a/source/data_model/gdal/source/compare_rasters.cpp b/source/data_model/gdal/source/compare_rasters.cpp
index 7664110..87552c2 100644
--- a/source/data_model/gdal/source/compare_rasters.cpp
+++ b/source/data_model/gdal/source/compare_rasters.cpp
@@ -1,8 +1,10 @@
 #include "lue/gdal/compare_rasters.hpp"
+#include "lue/gdal/configure.hpp"
 #include "lue/gdal/data_type.hpp"
 #include "lue/gdal/raster.hpp"
 #include "lue/define.hpp"
 #include "lue/string.hpp"
+#include <algorithm>
 #include <cassert>
 #include <format>
 
@@ -63,9 +65,13 @@ namespace lue::gdal {
             };
 
 
-            // Read blocks of data and compare the values
+            // Read blocks of data and compare the values. The layout of the blocks in the second band can be
+            // different from the one in the first band, so read the cells instead of the blocks themselves. A
+            // block can be larger than the raster.
             auto const shape{band1.shape()};
-            auto const block_shape{band1.block_shape()};
+            auto const band_block_shape{band1.block_shape()};
+            Shape const block_shape{
+                std::min(band_block_shape[0], shape[0]), std::min(band_block_shape[1], shape[1])};
             Blocks const blocks{shape, block_shape};
 
             std::vector<Element> values1(nr_elements(block_shape));
@@ -78,10 +84,12 @@ namespace lue::gdal {
             {
                 for (gdal::Count block_x = 0; block_x < nr_blocks_x && !different_values_found; ++block_x)
                 {
-                    auto const nr_valid_cells = nr_elements(blocks.shape_in_valid_cells({block_x, block_y}));
+                    Offset const offset{block_y * block_shape[0], block_x * block_shape[1]};
+                    Shape const shape_in_valid_cells{blocks.shape_in_valid_cells({block_y, block_x})};
+                    auto const nr_valid_cells = nr_elements(shape_in_valid_cells);
 
-                    band1.read_block({block_y, block_x}, values1.data());
-                    band2.read_block({block_y, block_x}, values2.data());
+                    band1.read(offset, shape_in_valid_cells, band1.data_type(), values1.data());
+                    band2.read(offset, shape_in_valid_cells, band2.data_type(), values2.data());
 
                     bool values_are_equal = compare_elements(values1, values2, nr_valid_cells);
 
diff --git a/source/data_model/gdal/source/raster.cpp b/source/data_model/gdal/source/raster.cpp
index 118525f..7ceaf97 100644
--- a/source/data_model/gdal/source/raster.cpp
+++ b/source/data_model/gdal/source/raster.cpp
@@ -58,6 +58,13 @@ namespace lue::gdal {
     }
 
 
+    auto Raster::Band::read(
+        Offset const& offset, Shape const& shape, GDALDataType const data_type, void* buffer) -> void
+    {
+        gdal::read(*_band_ptr, offset, shape, data_type, buffer);
+    }
+
+
     /*!
         @sa         gdal::write
     */
-- 
2.43.0


From 61c35244392878abe44dfdeb387c51a1523adbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 12/52] fix: Report failing to save experiment results

Failures to write were ignored, leaving an empty or truncated file.
---
 source/quality_assurance/cxx/source/scalability/io.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/quality_assurance/cxx/source/scalability/io.cpp b/source/quality_assurance/cxx/source/scalability/io.cpp
index bed340c..c9e8f9b 100644
--- a/source/quality_assurance/cxx/source/scalability/io.cpp
+++ b/source/quality_assurance/cxx/source/scalability/io.cpp
@@ -100,6 +100,14 @@ namespace lue::qa {
         }
 
         stream << to_json(experiment);
+
+        // Write what is still in the stream's buffer, before checking whether all went well
+        stream.close();
+
+        if (!stream)
+        {
+            throw std::runtime_error("Results could not be saved to file " + pathname);
+        }
     }
 
 }  // namespace lue::qa
-- 
2.43.0


From 24115b8ad6c607fcb5658ca6cfa16a00e2a016df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:18 +0000
Subject: [PATCH 13/52] fix: Track the object a variable raster belongs to

When creating a variable raster in a phenomenon that already contains an
object, another object ID was stored in the object tracker.
---
 source/data_model/hl/source/raster_view.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/data_model/hl/source/raster_view.cpp b/source/data_model/hl/source/raster_view.cpp
index 7ccbf5c..3136aac 100644
--- a/source/data_model/hl/source/raster_view.cpp
+++ b/source/data_model/hl/source/raster_view.cpp
@@ -739,6 +739,10 @@ namespace lue::data_model {
                 phenomenon.object_id().expand(1);
                 phenomenon.object_id().write(0, &object_id);
             }
+            else
+            {
+                phenomenon.object_id().read(0, &object_id);
+            }
 
             TimeConfiguration time_configuration{TimeDomainItemType::box};
             SpaceConfiguration space_configuration{Mobility::stationary, SpaceDomainItemType::box};
-- 
2.43.0


From fe9aa17f2d1150460c03c5a9c20b5463068f0a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:45 +0000
Subject: [PATCH 14/52] fix: cell_index offsets partitions by their extent
 along the requested dimension

---
 .../include/lue/framework/algorithm/definition/cell_index.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/cell_index.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/cell_index.hpp
index 2690cd7..1de9d0a 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/cell_index.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/cell_index.hpp
@@ -72,7 +72,7 @@ namespace lue {
                                 }
                             }
 
-                            count = std::get<1>(partition_shape);
+                            count = std::get<0>(partition_shape);
                         }
                         else if (dimension_idx == 1)
                         {
@@ -96,7 +96,7 @@ namespace lue {
                                 }
                             }
 
-                            count = std::get<0>(partition_shape);
+                            count = std::get<1>(partition_shape);
                         }
 
                         IndexPartition partition{hpx::find_here(), offset, std::move(index_data)};
-- 
2.43.0


From 987fbd4110966b0afcd28aacf5837929fcf21a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:02 +0000
Subject: [PATCH 15/52] fix: downscale reads the right source cells from
 enlarged border partitions

---
 .../algorithm/definition/resample.hpp         | 35 ++++++++-----------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/resample.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/resample.hpp
index 0e3e18c..04cee55 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/resample.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/resample.hpp
@@ -234,27 +234,20 @@ namespace lue {
                     // contributes to the values of multiple target cells. Determine the offset and shape of
                     // the source cells that must be assigned to the cells in the target partition.
 
-                    Offset source_area_offset{
-                        (std::get<0>(target_partition_offset) / _count) % std::get<0>(_partition_shape),
-                        (std::get<1>(target_partition_offset) / _count) % std::get<1>(_partition_shape)};
-
-                    // Careful: in case of the last row and column, partition shapes may differ. Only in those
-                    // cases, we need to test the special situation that we need to query outside of the
-                    // normal partition bounds. For example, if the partition shape is (3, 3), then a last
-                    // partition in a row may have shape (3, 5). Without doing the following test, we would
-                    // copy the wrong source values (starting at offset (0, 0), while instead we should be
-                    // copying those starting at (0, 3).
-                    if (std::get<0>(target_partition_shape) != std::get<0>(_partition_shape) &&
-                        std::get<0>(source_area_offset) == 0)
-                    {
-                        std::get<0>(source_area_offset) = std::get<0>(_partition_shape);
-                    }
-
-                    if (std::get<1>(target_partition_shape) != std::get<1>(_partition_shape) &&
-                        std::get<1>(source_area_offset) == 0)
-                    {
-                        std::get<1>(source_area_offset) = std::get<1>(_partition_shape);
-                    }
+                    //
+                    // Careful: partitions in the last row and column may be larger than the other ones. The
+                    // offset must be determined relative to the first cell of the source partition. It can
+                    // be outside of the normal partition bounds. For example, if the partition shape is
+                    // (3, 3), then a last partition in a row may have shape (3, 5), and the offset along
+                    // the second dimension can be 3 or 4.
+                    auto const [source_partition_idx0, source_partition_idx1] =
+                        linear_idx_to_idxs(source_partition_idx, _partitions.shape());
+
+                    Offset const source_area_offset{
+                        (std::get<0>(target_partition_offset) / _count) -
+                            (source_partition_idx0 * std::get<0>(_partition_shape)),
+                        (std::get<1>(target_partition_offset) / _count) -
+                            (source_partition_idx1 * std::get<1>(_partition_shape))};
 
                     // To only thing the task needs to do is copy cells from the source area, starting at the
                     // offset, into the new partition, assigning source cell values to multiple target
-- 
2.43.0


From 5b3186134d282a335a1f20561c5c8302decf4cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:46 +0000
Subject: [PATCH 16/52] fix: clump merges all collections of connected partial
 clumps

---
 .../include/lue/framework/algorithm/definition/clump.hpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp
index 35eb33e..b07472f 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/clump.hpp
@@ -1819,6 +1819,10 @@ namespace lue {
                                                 global_clump_ids_updates.find(idx2) ==
                                                 global_clump_ids_updates.end());
                                             global_clump_ids_updates[idx2] = idx1;
+
+                                            // The first collection got larger. It may now share elements
+                                            // with collections that were skipped before.
+                                            idx2 = idx1;
                                         }
                                     }
                                 }
-- 
2.43.0


From cd77aab814e86e5cac8caac7053a8375e6e779d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:01 +0000
Subject: [PATCH 17/52] fix: first_n does not finish an output partition twice

The collection of fragments still to visit is empty as well once a walk has
finished, which is possible before the partition is asked for.
---
 .../include/lue/framework/algorithm/definition/first_n.hpp  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp
index 3b3f142..6e3a27d 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/first_n.hpp
@@ -99,8 +99,10 @@ namespace lue {
                         OutputPartition partition{_output_partition_promise.get_future()};
 
                         // If the route partition contains no fragments, the output partition
-                        // can be marked as finished immediately
-                        if (_fragment_idxs.empty())
+                        // can be marked as finished immediately. Don't use _fragment_idxs to
+                        // find out. It is updated while walking and it is possible that the
+                        // walk has already finished the partition.
+                        if (ready_component_ptr(_route_partition)->route_ids().empty())
                         {
                             finish_partition();
                         }
-- 
2.43.0


From 0040e7718f1256bccf217bb672cfd885f39fca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:01 +0000
Subject: [PATCH 18/52] fix: routes in decreasing order include cells with zero
 and negative values

For floating-point types, min() is the smallest positive value.
---
 .../lue/framework/algorithm/definition/decreasing_order.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
index 748e9e6..31dea45 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
@@ -361,7 +361,7 @@ namespace lue {
                         lue_hpx_assert(std::get<0>(downstream_maxima[0]) == std::get<0>(local_values[0]));
                         lue_hpx_assert(std::get<1>(downstream_maxima[0]) == this->get_id());
 
-                        Value remote_value{std::numeric_limits<Value>::min()};
+                        Value remote_value{std::numeric_limits<Value>::lowest()};
                         hpx::id_type downstream_component_id{};
 
                         if (downstream_maxima.size() > 1)
@@ -865,7 +865,7 @@ namespace lue {
                         lue_hpx_assert(std::get<0>(downstream_maxima[0]) == std::get<0>(local_values[0]));
                         lue_hpx_assert(std::get<1>(downstream_maxima[0]) == this->get_id());
 
-                        Value remote_value{std::numeric_limits<Value>::min()};
+                        Value remote_value{std::numeric_limits<Value>::lowest()};
                         hpx::id_type downstream_component_id{};
 
                         if (downstream_maxima.size() > 1)
-- 
2.43.0


From 5a56409622a4fd37a38cf48a78683aa15f72f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:01 +0000
Subject: [PATCH 19/52] fix: decreasing_order without valid values results in
 no route

Use of the front of an empty collection is undefined.
---
 .../framework/algorithm/definition/decreasing_order.hpp    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
index 31dea45..af60fc1 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
@@ -1604,6 +1604,13 @@ namespace lue {
                                 downstream_maxima.end(),
                                 detail::CompareDownstreamMaxima<Value>{});
 
+                            if (downstream_maxima.empty())
+                            {
+                                // There are no valid values, hence there is no route
+                                return hpx::make_ready_future(
+                                    std::make_tuple(RouteStarts{}, std::move(components)));
+                            }
+
                             Component component{std::get<1>(downstream_maxima.front())};
 
                             hpx::future<typename Route::FragmentLocation> start_f =
-- 
2.43.0


From 9b464b2b0d2fd37f570ea0f365d5556e32bf40cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:01 +0000
Subject: [PATCH 20/52] fix: decreasing_order route partitions can be asked for
 after being finished

The actions returning the route partition and sorting the values are not
ordered. Finishing the partition moved the promise away.
---
 .../algorithm/definition/decreasing_order.hpp        | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
index af60fc1..b29d4a0 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/definition/decreasing_order.hpp
@@ -105,6 +105,7 @@ namespace lue {
 
                         _route_partition{hpx::find_here(), offset, shape},
                         _route_partition_p{},
+                        _promised_route_partition{_route_partition_p.get_future()},
                         _record_route_fragment_mutex{},
                         _route_fragments{},
                         _route_fragment_ends{},
@@ -116,15 +117,15 @@ namespace lue {
 
                     /*!
                         @brief      Return the route partition client instance
-                        @warning    Call this function only once.
 
 
-                        The instance returned isn't pointing to a server instance yet, but
-                        we'll promise to fix that later.
+                        The instance returned isn't necessarily pointing to a server instance yet,
+                        but we'll promise to fix that later. This function can be called before,
+                        while and after the partition is being finished.
                     */
                     auto route_partition() -> RoutePartition
                     {
-                        return RoutePartition{_route_partition_p.get_future()};
+                        return _promised_route_partition;
                     }
 
 
@@ -194,6 +195,9 @@ namespace lue {
                     //! Promise for the ID of the route partition server component
                     hpx::promise<hpx::id_type> _route_partition_p;
 
+                    //! Route partition which becomes ready once the promise is kept
+                    RoutePartition _promised_route_partition;
+
                     hpx::shared_mutex _record_route_fragment_mutex;
 
                     RouteFragments _route_fragments;
-- 
2.43.0


From 514b3889be4fd185fc304fd7ff742eb7e0bd1914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 21/52] fix: simulate does not start one time step more than
 the rate limit allows

The semaphore was told that the first time step had already finished.
---
 .../framework/model/include/lue/framework/model/simulate.hpp  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/framework/model/include/lue/framework/model/simulate.hpp b/source/framework/model/include/lue/framework/model/simulate.hpp
index 1d6db88..f3a668c 100644
--- a/source/framework/model/include/lue/framework/model/simulate.hpp
+++ b/source/framework/model/include/lue/framework/model/simulate.hpp
@@ -76,7 +76,9 @@ namespace lue {
         rate_limit -= 1;  // Otherwise we get rate_limit + 1 time steps in flight
 
         std::int64_t const max_difference{rate_limit};
-        hpx::sliding_semaphore semaphore{max_difference, first_time_step};
+
+        // No time step has finished yet
+        hpx::sliding_semaphore semaphore{max_difference, first_time_step - 1};
 
         // A type to represent the simulation's "state" after a single time step. It is assumed that once this
         // state becomes ready, that the tasks for the corresponding time step have all finished.
-- 
2.43.0


From d83c00d176dd2becacc111409d2010d915fb2e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 22/52] fix: simulate keeps the semaphore alive while it can
 still be signalled

When a model or progressor throws an exception, time steps may still be in
flight. Once finished, they signalled a semaphore that was already gone.
---
 .../include/lue/framework/model/simulate.hpp  | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/source/framework/model/include/lue/framework/model/simulate.hpp b/source/framework/model/include/lue/framework/model/simulate.hpp
index f3a668c..600da42 100644
--- a/source/framework/model/include/lue/framework/model/simulate.hpp
+++ b/source/framework/model/include/lue/framework/model/simulate.hpp
@@ -3,12 +3,13 @@
 #include "lue/framework/core/define.hpp"
 #include <hpx/future.hpp>
 #include <hpx/synchronization/sliding_semaphore.hpp>
+#include <memory>
 
 
 namespace lue {
     namespace detail {
 
-        static auto attach_signaller = [](hpx::sliding_semaphore& semaphore,
+        static auto attach_signaller = [](std::shared_ptr<hpx::sliding_semaphore> const& semaphore,
                                           auto&& previous_state,
                                           auto&& current_state,
                                           Count const lower_limit) -> auto
@@ -17,7 +18,7 @@ namespace lue {
 
             // Once the previous state is ready ...
             return previous_state.then(
-                [&semaphore,
+                [semaphore,
                  current_state = std::forward<decltype(current_state)>(current_state),
                  lower_limit]([[maybe_unused]] auto const& previous_state) -> auto
                 {
@@ -25,7 +26,7 @@ namespace lue {
 
                     // ... and once the current state is ready ...
                     return current_state.then(
-                        [&semaphore, lower_limit]([[maybe_unused]] auto const& current_state) -> auto
+                        [semaphore, lower_limit]([[maybe_unused]] auto const& current_state) -> auto
                         {
                             lue_hpx_assert(current_state.is_ready());
 
@@ -33,7 +34,7 @@ namespace lue {
                             hpx::agas::garbage_collect();
 
                             // ... notify the semaphore about the new lower limit
-                            semaphore.signal(lower_limit);
+                            semaphore->signal(lower_limit);
                         });
                 });
         };
@@ -78,7 +79,11 @@ namespace lue {
         std::int64_t const max_difference{rate_limit};
 
         // No time step has finished yet
-        hpx::sliding_semaphore semaphore{max_difference, first_time_step - 1};
+        //
+        // Continuations attached to the states refer to the semaphore. They may outlive this function in case an
+        // exception is thrown.
+        auto const semaphore =
+            std::make_shared<hpx::sliding_semaphore>(max_difference, first_time_step - 1);
 
         // A type to represent the simulation's "state" after a single time step. It is assumed that once this
         // state becomes ready, that the tasks for the corresponding time step have all finished.
@@ -99,15 +104,14 @@ namespace lue {
 
                 // Set the new upper limit. Wait if necessary. Continue if / once the difference
                 // between the lower and upper limits is not larger than the max_difference set.
-                semaphore.wait(current_time_step);
+                semaphore->wait(current_time_step);
 
                 simulate(progressor, current_time_step);
 
                 if (current_time_step == last_time_step)
                 {
                     // This will make sure this function does not return before the last state is
-                    // ready. Returning too early results in dangling references to the semaphore.
-                    // Wait explicitly here, because the semaphore only waits conditionally. The
+                    // ready. Wait explicitly here, because the semaphore only waits conditionally. The
                     // last state may or may not be ready already.
                     previous_state.wait();
                 }
-- 
2.43.0


From 72027a3c35b2b8842fbaea63cb2f2b0fcad28882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:34 +0000
Subject: [PATCH 23/52] fix: all localities take part in reading from and
 writing to datasets

---
 .../io/include/lue/framework/io/util.hpp      | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/source/framework/io/include/lue/framework/io/util.hpp b/source/framework/io/include/lue/framework/io/util.hpp
index 6863c79..7151104 100644
--- a/source/framework/io/include/lue/framework/io/util.hpp
+++ b/source/framework/io/include/lue/framework/io/util.hpp
@@ -271,22 +271,20 @@ namespace lue::detail {
 
             // Try to prevent reallocations while adding partitions to the collections. Assume the partitions
             // are evenly distributed over all localities.
-            Count const max_nr_partitions_per_locality{
-                (nr_partitions / Count(hpx::find_all_localities().size())) + 1};
+            std::vector<hpx::id_type> const all_localities{hpx::find_all_localities()};
+            Count const max_nr_partitions_per_locality{(nr_partitions / Count(all_localities.size())) + 1};
+
+            // All localities take part in each I/O operation, also those without any of the array's
+            // partitions. They all count these operations, and wait for the previous ones to finish.
+            for (hpx::id_type const& locality : all_localities)
+            {
+                result[locality].reserve(max_nr_partitions_per_locality);
+            }
 
             for (Index partition_idx = 0; partition_idx < nr_partitions; ++partition_idx)
             {
                 hpx::id_type const locality{localities[partition_idx]};
 
-                if (result.find(locality) == result.end())
-                {
-                    // For this locality, we do not have created a collection of partitions yet. Create one
-                    // and already reserve (hopefully) enough memory.
-                    std::vector<Index> empty_partition_collection{};
-                    empty_partition_collection.reserve(max_nr_partitions_per_locality);
-                    result[locality] = std::move(empty_partition_collection);
-                }
-
                 // This fails if the distribution of partitions over localities is not even. Update heuristics
                 // if that is the case, if possible. Otherwise just remove the assert.
                 lue_hpx_assert(result[locality].capacity() > result[locality].size());
-- 
2.43.0


From 4bca730a15fbcfeea8c98fef69b3161523df2136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:34 +0000
Subject: [PATCH 24/52] fix: datasets are closed before this is signalled

---
 source/framework/io/include/lue/framework/io/from_lue.hpp | 6 +++---
 source/framework/io/include/lue/framework/io/to_lue.hpp   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/framework/io/include/lue/framework/io/from_lue.hpp b/source/framework/io/include/lue/framework/io/from_lue.hpp
index b108477..bd221a4 100644
--- a/source/framework/io/include/lue/framework/io/from_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/from_lue.hpp
@@ -247,7 +247,7 @@ namespace lue {
                             -> Partitions
                         {
                             // The dataset must go out of scope before we set the promise's value
-                            [](auto&& dataset) -> auto { HPX_UNUSED(dataset); }(std::move(dataset));
+                            [](auto dataset) -> auto { HPX_UNUSED(dataset); }(std::move(dataset));
                             from_lue_close_dataset_p.set_value();
                             return partitions;
                         });
@@ -418,7 +418,7 @@ namespace lue {
                         lue_hpx_assert(from_lue_close_dataset_predecessor_f.is_ready());
 
                         // The dataset must go out of scope before we set the promise's value
-                        [](auto&& dataset) -> auto
+                        [](auto dataset) -> auto
                         {
                             HPX_UNUSED(dataset);
                             // dataset.flush();
@@ -446,7 +446,7 @@ namespace lue {
                                     -> auto
                                 {
                                     // The dataset must go out of scope before we set the promise's value
-                                    [](auto&& dataset) -> auto
+                                    [](auto dataset) -> auto
                                     {
                                         HPX_UNUSED(dataset);
                                         // dataset.flush();
diff --git a/source/framework/io/include/lue/framework/io/to_lue.hpp b/source/framework/io/include/lue/framework/io/to_lue.hpp
index 5ce5ab6..b5fd17b 100644
--- a/source/framework/io/include/lue/framework/io/to_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/to_lue.hpp
@@ -315,7 +315,7 @@ namespace lue {
                             [[maybe_unused]] auto const& close_for_read_file_predecessor_f) mutable -> auto
                         {
                             // The dataset must go out of scope before we set the promise's value
-                            [](auto&& dataset) -> auto { HPX_UNUSED(dataset); }(std::move(dataset));
+                            [](auto dataset) -> auto { HPX_UNUSED(dataset); }(std::move(dataset));
                             to_lue_close_dataset_p.set_value();
                         });
                 },
@@ -518,7 +518,7 @@ namespace lue {
                         lue_hpx_assert(to_lue_close_dataset_predecessor_f.is_ready());
 
                         // The dataset must go out of scope before we set the promise's value
-                        [](auto&& dataset) -> auto
+                        [](auto dataset) -> auto
                         {
                             HPX_UNUSED(dataset);
                             // dataset.flush();
@@ -545,7 +545,7 @@ namespace lue {
                                 -> auto
                             {
                                 // The dataset must go out of scope before we set the promise's value
-                                [](auto&& dataset) -> auto
+                                [](auto dataset) -> auto
                                 {
                                     HPX_UNUSED(dataset);
                                     // dataset.flush();
-- 
2.43.0


From d70b22c4fa867b814e4bbde5475185d48a646ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:34 +0000
Subject: [PATCH 25/52] fix: from_lue does not open a dataset which is still
 being written to

---
 .../io/include/lue/framework/io/from_lue.hpp  | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/source/framework/io/include/lue/framework/io/from_lue.hpp b/source/framework/io/include/lue/framework/io/from_lue.hpp
index bd221a4..77f7f5c 100644
--- a/source/framework/io/include/lue/framework/io/from_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/from_lue.hpp
@@ -818,6 +818,22 @@ namespace lue {
         }
 
 
+        /*!
+            @brief      Wait until all previous calls to to_lue to the dataset have finished
+
+            In case of serial I/O, a dataset cannot be written to while it is opened for reading, and the other
+            way around. Therefore, it must not be opened here while such a call is ongoing.
+        */
+        inline void wait_for_to_lue_finished([[maybe_unused]] std::string const& dataset_pathname)
+        {
+#ifndef LUE_FRAMEWORK_WITH_PARALLEL_IO
+            auto const dataset_path{normalize(dataset_pathname)};
+
+            to_lue_finished(dataset_path, current_to_lue_order(dataset_path)).wait();
+#endif
+        }
+
+
         template<typename Shape>
         auto constant_array_shape(std::string const& array_pathname) -> Shape
         {
@@ -830,6 +846,8 @@ namespace lue {
             using DatasetPtr = std::shared_ptr<ldm::Dataset>;
             using RasterView = ldm::constant::RasterView<DatasetPtr>;
 
+            wait_for_to_lue_finished(dataset_pathname);
+
             auto input_dataset_ptr =
                 std::make_shared<ldm::Dataset>(ldm::open_dataset(dataset_pathname, H5F_ACC_RDONLY));
 
@@ -860,6 +878,8 @@ namespace lue {
             using DatasetPtr = std::shared_ptr<ldm::Dataset>;
             using RasterView = ldm::variable::RasterView<DatasetPtr>;
 
+            wait_for_to_lue_finished(dataset_pathname);
+
             auto input_dataset_ptr =
                 std::make_shared<ldm::Dataset>(ldm::open_dataset(dataset_pathname, H5F_ACC_RDONLY));
 
-- 
2.43.0


From 7110a7030501e0d2e10005f85d888c872bca3268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:02 +0000
Subject: [PATCH 26/52] fix: a call to from_lue is finished once the calls
 before it are

---
 .../io/include/lue/framework/io/from_lue.hpp     | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/source/framework/io/include/lue/framework/io/from_lue.hpp b/source/framework/io/include/lue/framework/io/from_lue.hpp
index 77f7f5c..88a0610 100644
--- a/source/framework/io/include/lue/framework/io/from_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/from_lue.hpp
@@ -414,8 +414,12 @@ namespace lue {
 
                     if constexpr (serial_io)
                     {
-                        // No reason to go async. Any predecessor is done already.
-                        lue_hpx_assert(from_lue_close_dataset_predecessor_f.is_ready());
+                        // No reason to go async. Multiple calls can be reading at the same time. Unless reading
+                        // is serialized, they can be done in any order.
+                        if constexpr (serial_io_non_thread_safe)
+                        {
+                            lue_hpx_assert(from_lue_close_dataset_predecessor_f.is_ready());
+                        }
 
                         // The dataset must go out of scope before we set the promise's value
                         [](auto dataset) -> auto
@@ -810,8 +814,14 @@ namespace lue {
 
             if constexpr (serial_io)
             {
+                // Previous calls may finish later than this one. Once this call is considered finished, they
+                // must be too.
                 detail::add_from_lue_finished(
-                    dataset_path, from_lue_order, hpx::when_all(dataset_closed_fs).share());
+                    dataset_path,
+                    from_lue_order,
+                    hpx::when_all(
+                        hpx::when_all(dataset_closed_fs), from_lue_finished(dataset_path, from_lue_order - 1))
+                        .share());
             }
 
             return array;
-- 
2.43.0


From 0902f0942b3fa68572d7d4ebff6b8637b53ce347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:49 +0000
Subject: [PATCH 27/52] fix: reading a constant array is finished once all
 localities have closed the dataset

---
 .../io/include/lue/framework/io/from_lue.hpp  | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/source/framework/io/include/lue/framework/io/from_lue.hpp b/source/framework/io/include/lue/framework/io/from_lue.hpp
index 88a0610..55f2b84 100644
--- a/source/framework/io/include/lue/framework/io/from_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/from_lue.hpp
@@ -545,6 +545,11 @@ namespace lue {
             lue_hpx_assert(dataset_closed_f.valid());
 #endif
 
+            // Collection of futures, each of which becomes ready once a locality has closed the dataset again.
+            // Localities without partitions also open and close the dataset. Partitions must not be kept here.
+            std::vector<hpx::future<void>> localities_finished{};
+            localities_finished.reserve(partition_idxs_by_locality.size());
+
             // Iterate over all grouped partitions
             for (auto const& [locality, partition_idxs] : partition_idxs_by_locality)
             {
@@ -562,7 +567,7 @@ namespace lue {
 
                 if constexpr (serial_io)
                 {
-                    partition_fs = hpx::split_future<Partition>(
+                    hpx::shared_future<std::vector<Partition>> const partitions_f{
                         dataset_closed_f.then(
                             [action,
                              locality,
@@ -585,8 +590,14 @@ namespace lue {
                                     array_hyperslab_start,
                                     object_id,
                                     std::move(partitions));
-                            }),
+                            })};
+
+                    partition_fs = hpx::split_future<Partition>(
+                        partitions_f.then([](auto const& partitions_f) -> std::vector<Partition>
+                                          { return partitions_f.get(); }),
                         std::size(partition_idxs));
+                    localities_finished.push_back(
+                        partitions_f.then([]([[maybe_unused]] auto const& partitions_f) -> void {}));
                 }
                 else
                 {
@@ -633,10 +644,15 @@ namespace lue {
 
             if constexpr (serial_io)
             {
+                // Previous calls may finish later than this one. Once this call is considered finished, they
+                // must be too.
                 detail::add_from_lue_finished(
                     dataset_path,
                     from_lue_order,
-                    hpx::when_all(array.partitions().begin(), array.partitions().end()).share());
+                    hpx::when_all(
+                        hpx::when_all(localities_finished),
+                        from_lue_finished(dataset_path, from_lue_order - 1))
+                        .share());
             }
 
             return array;
-- 
2.43.0


From 4809ab1e3b6ff7e8f9af485af605212435ac9f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:36 +0000
Subject: [PATCH 28/52] fix: to_lue reports that writing failed

---
 .../io/include/lue/framework/io/to_lue.hpp    | 34 ++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/source/framework/io/include/lue/framework/io/to_lue.hpp b/source/framework/io/include/lue/framework/io/to_lue.hpp
index b5fd17b..a76e4eb 100644
--- a/source/framework/io/include/lue/framework/io/to_lue.hpp
+++ b/source/framework/io/include/lue/framework/io/to_lue.hpp
@@ -676,9 +676,9 @@ namespace lue {
                      array_pathname,
                      to_lue_order,
                      from_lue_order,
-                     object_id]([[maybe_unused]] auto const& previous_locality_finished) -> auto
+                     object_id](hpx::future<void> previous_locality_finished) -> hpx::future<void>
                     {
-                        return hpx::async(
+                        auto current_locality_finished = hpx::async(
                             action,
                             locality,
                             std::move(policies),
@@ -688,6 +688,15 @@ namespace lue {
                             to_lue_order,
                             from_lue_order,
                             object_id);
+
+                        // If writing failed in a previous locality, then writing the array failed
+                        return current_locality_finished.then(
+                            [previous_locality_finished =
+                                 std::move(previous_locality_finished)](hpx::future<void> locality_finished) mutable -> void
+                            {
+                                locality_finished.get();
+                                previous_locality_finished.get();
+                            });
                     }));
             }
             else
@@ -713,9 +722,8 @@ namespace lue {
             lue_hpx_assert(to_lue_finished.valid());
             detail::add_to_lue_finished(dataset_path, to_lue_order, to_lue_finished);
 
-            // Convert shared_future to future
-            // return to_lue_finished.then([]([[maybe_unused]] auto const& future) -> auto {});
-            return hpx::when_all(to_lue_finished);
+            // Convert shared_future to future. In case writing failed, the caller must be able to notice this.
+            return to_lue_finished.then([](auto const& to_lue_finished) -> void { to_lue_finished.get(); });
         }
         else
         {
@@ -824,9 +832,9 @@ namespace lue {
                      to_lue_order,
                      from_lue_order,
                      object_id,
-                     time_step_idx]([[maybe_unused]] auto const& locality_finished) -> auto
+                     time_step_idx](hpx::future<void> locality_finished) -> hpx::future<void>
                     {
-                        return hpx::async(
+                        auto current_locality_finished = hpx::async(
                             action,
                             locality,
                             std::move(policies),
@@ -837,6 +845,15 @@ namespace lue {
                             from_lue_order,
                             object_id,
                             time_step_idx);
+
+                        // If writing failed in a previous locality, then writing the array failed
+                        return current_locality_finished.then(
+                            [previous_locality_finished =
+                                 std::move(locality_finished)](hpx::future<void> locality_finished) mutable -> void
+                            {
+                                locality_finished.get();
+                                previous_locality_finished.get();
+                            });
                     }));
             }
 
@@ -864,7 +881,8 @@ namespace lue {
             lue_hpx_assert(to_lue_finished.valid());
             detail::add_to_lue_finished(dataset_path, to_lue_order, to_lue_finished);
 
-            return hpx::when_all(to_lue_finished);
+            // Convert shared_future to future. In case writing failed, the caller must be able to notice this.
+            return to_lue_finished.then([](auto const& to_lue_finished) -> void { to_lue_finished.get(); });
         }
 
         if constexpr (detail::parallel_io)
-- 
2.43.0


From 6c28d8a0d26a8efde4df9c2ae44e864490436047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:54 +0000
Subject: [PATCH 29/52] fix: moving to partition data leaves the data it shared
 elements with alone

---
 .../partitioned_array/shared_buffer.hpp          | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/source/framework/partitioned_array/include/lue/framework/partitioned_array/shared_buffer.hpp b/source/framework/partitioned_array/include/lue/framework/partitioned_array/shared_buffer.hpp
index 0362be1..c107f1f 100644
--- a/source/framework/partitioned_array/include/lue/framework/partitioned_array/shared_buffer.hpp
+++ b/source/framework/partitioned_array/include/lue/framework/partitioned_array/shared_buffer.hpp
@@ -97,12 +97,18 @@ namespace lue {
             {
                 // This class requires that a _ptr always points to a, possibly empty, collection of elements
 
-                std::swap(other._ptr, _ptr);
-                assert_invariants();
+                if (this != &other)
+                {
+                    // The elements pointed to until now must not be touched. They may be shared with other
+                    // instances.
+                    SharedBuffer tmp{std::move(other)};
+                    std::swap(tmp._ptr, _ptr);
 
-                other._ptr->clear();
-                other.assert_invariants();
-                lue_hpx_assert(other.size() == 0);
+                    other.assert_invariants();
+                    lue_hpx_assert(other.size() == 0);
+                }
+
+                assert_invariants();
 
                 return *this;
             }
-- 
2.43.0


From 708d7094272a8a399a4e3292d5ec83df56db35eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:54 +0000
Subject: [PATCH 30/52] fix: arrays can be reshaped after elements have been
 removed from them

---
 .../core/include/lue/framework/core/array.hpp        | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/framework/core/include/lue/framework/core/array.hpp b/source/framework/core/include/lue/framework/core/array.hpp
index 7c704e4..6a0f06f 100644
--- a/source/framework/core/include/lue/framework/core/array.hpp
+++ b/source/framework/core/include/lue/framework/core/array.hpp
@@ -284,6 +284,15 @@ namespace lue {
 
                 std::move(end, this->end(), begin);
                 _nr_elements -= std::distance(begin, end);
+
+                if constexpr (rank == 1)
+                {
+                    // Make sure a subsequent call to reshape knows about the current number of elements
+                    _shape[0] = _nr_elements;
+                    _span = Span{_elements.get(), _shape};
+
+                    assert_invariants();
+                }
             }
 
 
@@ -437,8 +446,7 @@ namespace lue {
                 lue_hpx_assert(lue::nr_elements(_shape) == _nr_elements);
                 lue_hpx_assert(static_cast<Count>(_span.size()) == _nr_elements);
                 lue_hpx_assert(_span.data_handle() == _elements.get());
-                lue_hpx_assert(
-                    (_nr_elements == 0 && data() == nullptr) || (_nr_elements > 0 && data() != nullptr));
+                lue_hpx_assert(_nr_elements == 0 || data() != nullptr);
                 lue_hpx_assert(_nr_elements <= _buffer_size);
             }
 
-- 
2.43.0


From 74118e209b6d4a927d67ce8e5cc6aec17a4b1d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:45 +0000
Subject: [PATCH 31/52] fix: validating values per object reports missing
 indices of active objects

---
 source/data_model/cxx/source/validate.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/source/data_model/cxx/source/validate.cpp b/source/data_model/cxx/source/validate.cpp
index 74806a3..7682211 100644
--- a/source/data_model/cxx/source/validate.cpp
+++ b/source/data_model/cxx/source/validate.cpp
@@ -351,13 +351,22 @@ namespace lue::data_model {
             active_set_idxs.push_back(active_object_id.nr_ids());
             auto begin_idx = active_set_idxs[0];
 
-            // TODO(KDJ) This happens when the active object idxs are empty. In
-            // that case, validation of the object tracker succeeded, because
-            // it doesn't now that this collection mustn't be empty, because
-            // it doesn't know it is required. It is required in the case of
-            // different_shape::constant_shape::Value. Not sure how to fix
-            // this conveniently yet.
-            assert(active_object_ids.size() == active_object_idxs.size());
+            // This happens, for example, when the active object idxs are
+            // empty. Validation of the object tracker succeeds in that case,
+            // because it doesn't know that the indices are required.
+            if (active_object_idxs.size() != active_object_ids.size())
+            {
+                issues.add_error(
+                    value.id(),
+                    std::format(
+                        "Number of active object indices must equal the "
+                        "number of active object IDs "
+                        "({} != {})",
+                        active_object_idxs.size(),
+                        active_object_ids.size()));
+
+                return;
+            }
 
             for (std::size_t i = 1; i < active_set_idxs.size(); ++i)
             {
-- 
2.43.0


From 4cb25ad6d18ecf21bace0922eb7021757eee1bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:27 +0000
Subject: [PATCH 32/52] fix: arrays with 16-bit integers can be read in Python

---
 source/data_model/python/source/core/array.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 3da2526..d54023a 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -280,6 +280,14 @@ namespace lue::data_model {
             {
                 result = create_array<int8_t>(slice_shape);
             }
+            else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT16})
+            {
+                result = create_array<uint16_t>(slice_shape);
+            }
+            else if (datatype == hdf5::Datatype{H5T_NATIVE_INT16})
+            {
+                result = create_array<int16_t>(slice_shape);
+            }
             else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT32})
             {
                 result = create_array<uint32_t>(slice_shape);
@@ -346,6 +354,14 @@ namespace lue::data_model {
         {
             result = create_scalar<int8_t>(array, hyperslab);
         }
+        else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT16})
+        {
+            result = create_scalar<uint16_t>(array, hyperslab);
+        }
+        else if (datatype == hdf5::Datatype{H5T_NATIVE_INT16})
+        {
+            result = create_scalar<int16_t>(array, hyperslab);
+        }
         else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT32})
         {
             result = create_scalar<uint32_t>(array, hyperslab);
-- 
2.43.0


From 777a1ea53533bfa0a14de7a6d90e55ad3605d9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:52 +0000
Subject: [PATCH 33/52] fix: assigning an array to one index of a stored array
 takes the number of values into account

---
 .../data_model/python/source/core/array.cpp   | 21 +++++++------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index d54023a..60d7d7d 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -466,17 +466,6 @@ namespace lue::data_model {
     }
 
 
-    template<typename T>
-    void write_to_array(Array& array, hdf5::Hyperslab const& hyperslab, T const* values)
-    {
-        verify_write<T>(array, hyperslab);
-
-        // Write source array into hyperslab target array
-        hdf5::Datatype memory_datatype{hdf5::NativeDatatypeTraits<T>::type_id()};
-        dynamic_cast<hdf5::Dataset&>(array).write(memory_datatype, hyperslab, values);
-    }
-
-
     template<typename T>
     void write_to_array(
         Array& array,
@@ -570,7 +559,8 @@ namespace lue::data_model {
 
 
     template<typename T>
-    void set_item(Array& array, std::int64_t const index, T const* values)
+    void set_item(
+        Array& array, hdf5::Dataspace const& memory_dataspace, std::int64_t const index, T const* values)
     {
         hdf5::Shape const shape{array.shape()};
         hdf5::Hyperslab hyperslab{shape};
@@ -579,7 +569,7 @@ namespace lue::data_model {
 
         update_hyperslab_by_index(0, index, shape, hyperslab, slice_shape, nr_erased_dimensions);
 
-        write_to_array(array, hyperslab, values);
+        write_to_array(array, memory_dataspace, hyperslab, values);
     }
 
 
@@ -589,7 +579,10 @@ namespace lue::data_model {
         std::int64_t const index,
         py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values)
     {
-        set_item(array, index, static_cast<T const*>(values.request().ptr));
+        hdf5::Shape const sizes(values.shape(), values.shape() + values.ndim());
+        auto const memory_dataspace = hdf5::create_dataspace(sizes);
+
+        set_item(array, memory_dataspace, index, static_cast<T const*>(values.request().ptr));
     }
 
 
-- 
2.43.0


From 82e2879610dd8f1d6fcd6f2f3050c0574812afdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:13 +0000
Subject: [PATCH 34/52] fix: only tuples index several dimensions of a stored
 array

---
 source/data_model/python/source/core/array.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 60d7d7d..8bed911 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -628,7 +628,7 @@ namespace lue::data_model {
     }
 
 
-    static auto create_hyperslab(hdf5::Shape const shape, std::vector<py::object> const& indices)
+    static auto create_hyperslab(hdf5::Shape const shape, py::tuple const& indices)
         -> std::tuple<hdf5::Hyperslab, hdf5::Shape>
     {
         // With each index, a selection is made along the corresponding
@@ -657,7 +657,7 @@ namespace lue::data_model {
 
         for (size_t i = 0; i < indices.size(); ++i)
         {
-            auto const& index = indices[i];
+            py::object const index = indices[i];
 
             // Strings are implicitly converted into a py::slice.
             // The characters are used for start:count:step. To filter
@@ -706,7 +706,7 @@ namespace lue::data_model {
     template<typename T>
     void set_item(
         Array& array,
-        std::vector<py::object> const& indices,
+        py::tuple const& indices,
         py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values)
     {
         hdf5::Shape const sizes(values.shape(), values.shape() + values.ndim());
@@ -780,7 +780,7 @@ namespace lue::data_model {
 
             .def(
                 "__getitem__",
-                [](Array const& array, std::vector<py::object> const& indices) -> py::object
+                [](Array const& array, py::tuple const& indices) -> py::object
                 {
                     auto [hyperslab, slice_shape] = create_hyperslab(array.shape(), indices);
 
@@ -844,7 +844,7 @@ namespace lue::data_model {
     .def(                                                                                                    \
         "__setitem__",                                                                                       \
         [](Array& array,                                                                                     \
-           std::vector<py::object> const& indices,                                                           \
+           py::tuple const& indices,                                                                         \
            py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values) -> auto                  \
         { set_item<T>(array, indices, values); })
 
-- 
2.43.0


From c3061482305586901b68d1dbf52ab47933e7a391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:51 +0000
Subject: [PATCH 35/52] fix: strings read in Python are the ones selected, each
 of them

---
 .../data_model/python/source/core/array.cpp   | 42 +++++++++----------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 8bed911..34e99fd 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -190,7 +190,11 @@ namespace lue::data_model {
             // must contain fixed length Unicode strings (measured in UCS4 encoded code
             // points). Shorter strings are padded with nulls.
 
-            assert(slice_shape.size() == 1);
+            if (slice_shape.size() != 1)
+            {
+                throw std::runtime_error("Currently, only 1-D string arrays are supported");
+            }
+
             auto const nr_strings = slice_shape[0];
 
             // Read the strings in a data structure of our own
@@ -202,41 +206,33 @@ namespace lue::data_model {
 
             // Object to scope the array of arrays allocated by the next read. The values_read
             // sub-arrays will be freed.
-            lue::hdf5::VLenMemory vlen{memory_datatype, array.dataspace(), values_read.get()};
+            lue::hdf5::VLenMemory vlen{
+                memory_datatype, hdf5::create_dataspace(slice_shape), values_read.get()};
 
             array.read(hyperslab, values_read.get());
 
             // We now have variable length UTF8 encoded Unicode strings in values_read. These
-            // must end up as fixed length Unicode strings in the Numpy array.
+            // must end up as fixed length Unicode strings in the Numpy array. Strings that have
+            // not been written yet are represented by null pointers.
+            auto const string_read = [&values_read](std::size_t const i) -> char const*
+            { return values_read[i] != nullptr ? values_read[i] : ""; };
 
             // Maximum number of bytes used to represent a UTF8 encoded string in HDF5
             std::size_t max_nr_bytes_per_string_utf8{0};
 
             for (size_t i = 0; i < nr_strings; ++i)
             {
-                assert(values_read[i][strlen(values_read[i])] == '\0');
                 max_nr_bytes_per_string_utf8 =
-                    std::max(max_nr_bytes_per_string_utf8, std::strlen(values_read[i]));
+                    std::max(max_nr_bytes_per_string_utf8, std::strlen(string_read(i)));
             }
 
-            // Number of bytes used to represent a single code point in a NumPy Unicode
-            // string, which uses UTF32 encoding (~= UCS4).
-            std::size_t const nr_bytes_per_code_point_utf32{4};
-
             // Maximum number of code points per NumPy Unicode string. This happens when
             // a single character is represented by a single byte on the HDF5 side (UTF8).
-            std::size_t const max_nr_code_points{max_nr_bytes_per_string_utf8};
-
-            // Maximum number of bytes per NumPy Unicode string
-            std::size_t const max_nr_bytes_per_string_utf32{
-                max_nr_code_points * nr_bytes_per_code_point_utf32};
+            std::size_t const max_nr_code_points{
+                std::max(max_nr_bytes_per_string_utf8, std::size_t{1})};
 
-            // Buffer for all Unicode strings, back to back
-            auto py_buffer_utf32{std::make_unique<Py_UCS4[]>(nr_strings * max_nr_bytes_per_string_utf32)};
-            std::fill(
-                py_buffer_utf32.get(),
-                py_buffer_utf32.get() + nr_strings * max_nr_bytes_per_string_utf32,
-                '\0');
+            // Buffer for all Unicode strings (UTF32, ~= UCS4), back to back, filled with nulls
+            auto py_buffer_utf32{std::make_unique<Py_UCS4[]>(nr_strings * max_nr_code_points)};
 
             {
                 py::str py_string{};
@@ -245,7 +241,7 @@ namespace lue::data_model {
                 for (std::size_t i = 0; i < nr_strings; ++i)
                 {
                     // Decode UTF8 string as read from LUE array
-                    py_string = py::reinterpret_steal<py::str>(PyUnicode_FromString(values_read[i]));
+                    py_string = py::reinterpret_steal<py::str>(PyUnicode_FromString(string_read(i)));
 
                     if (!py_string)
                     {
@@ -253,13 +249,13 @@ namespace lue::data_model {
                     }
 
                     // Copy Unicode string into the right slot in the Numpy array
-                    if (PyUnicode_AsUCS4(py_string.ptr(), buffer_ptr, max_nr_bytes_per_string_utf32, 0) ==
+                    if (PyUnicode_AsUCS4(py_string.ptr(), buffer_ptr, max_nr_code_points, 0) ==
                         nullptr)
                     {
                         throw py::error_already_set();
                     }
 
-                    buffer_ptr += max_nr_bytes_per_string_utf32;
+                    buffer_ptr += max_nr_code_points;
                 }
             }
 
-- 
2.43.0


From c77bf5ba862fee48868258cd0670698e983e6e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:28 +0000
Subject: [PATCH 36/52] fix: strings assigned in Python end up in the selected
 elements, each of them

---
 .../data_model/python/source/core/array.cpp   | 46 +++++++++----------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 34e99fd..7d44422 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -930,9 +930,17 @@ namespace lue::data_model {
 
                     auto const nr_strings = slice_shape[0];
 
-                    // Copy strings to new buffer that is compatible with HDF5
-                    // variable length strings
-                    auto hdf5_buffer = std::make_unique<char*[]>(nr_strings);
+                    if (info.ndim != 1 || static_cast<std::size_t>(info.size) != nr_strings)
+                    {
+                        throw std::runtime_error(
+                            std::format(
+                                "Number of strings to assign ({}) must equal the size of the selection ({})",
+                                info.size,
+                                nr_strings));
+                    }
+
+                    // Copy strings to new buffer
+                    std::vector<std::string> strings(nr_strings);
 
                     if (utf8_encoded_strings)
                     {
@@ -956,12 +964,7 @@ namespace lue::data_model {
                             boost::algorithm::trim_right_if(
                                 string_utf8, [](char const c) -> bool { return c == '\0'; });
 
-                            // Make space for the UTF8 encoded string + null character. Copy
-                            // the string and append with a null.
-                            hdf5_buffer.get()[i] = new char[string_utf8.size() + 1];
-                            auto hdf5_string = hdf5_buffer.get()[i];
-                            std::ranges::copy(string_utf8, hdf5_string);
-                            hdf5_string[string_utf8.size()] = '\0';
+                            strings[i] = std::move(string_utf8);
                         }
                     }
                     else
@@ -971,7 +974,6 @@ namespace lue::data_model {
                         // Length in bytes of each individual string
                         std::size_t const nr_bytes_per_string_utf32 = info.itemsize;
 
-#ifndef NDEBUG
                         // Number of bytes used to represent a code point
                         std::size_t const nr_bytes_per_code_point_utf32 = 4;
                         assert(nr_bytes_per_string_utf32 % nr_bytes_per_code_point_utf32 == 0);
@@ -980,7 +982,6 @@ namespace lue::data_model {
                         std::size_t const nr_code_points =
                             nr_bytes_per_string_utf32 / nr_bytes_per_code_point_utf32;
                         assert(nr_code_points == std::stoul(info.format));
-#endif
 
                         // Buffer is a 1-D array with all strings back to back. The maximum
                         // length of each string is the same: nr_code_points. Shorter strings
@@ -1017,25 +1018,20 @@ namespace lue::data_model {
                                 boost::algorithm::trim_right_if(
                                     string_utf8, [](char const c) -> bool { return c == '\0'; });
 
-                                // Make space for the UTF8 encoded string + null
-                                // character. Copy the string and append with a null.
-                                hdf5_buffer.get()[i] = new char[string_utf8.size() + 1];
-                                auto hdf5_string = hdf5_buffer.get()[i];
-                                std::ranges::copy(string_utf8, hdf5_string);
-                                hdf5_string[string_utf8.size()] = '\0';
+                                strings[i] = std::move(string_utf8);
+                                start_of_string_utf32 += nr_code_points;
                             }
-
-                            start_of_string_utf32 += nr_bytes_per_string_utf32;
                         }
                     }
 
-                    array.write(hdf5_buffer.get());
+                    // HDF5 variable length strings are pointers to null terminated strings
+                    std::vector<char const*> hdf5_buffer(nr_strings);
+                    std::ranges::transform(
+                        strings,
+                        hdf5_buffer.begin(),
+                        [](std::string const& string) -> char const* { return string.c_str(); });
 
-                    // TODO Make sure this happens also in case of errors
-                    for (std::size_t i = 0; i < nr_strings; ++i)
-                    {
-                        delete[] hdf5_buffer.get()[i];
-                    }
+                    array.write(hyperslab, hdf5_buffer.data());
                 })
 
             ;
-- 
2.43.0


From 479726a61bfbcd3ffb67dc8215312571c9996f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:06 +0000
Subject: [PATCH 37/52] fix: values assigned in Python are converted to the
 type they need

---
 .../data_model/python/source/core/array.cpp   | 68 +++++++++++++++++--
 1 file changed, 62 insertions(+), 6 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 7d44422..6d1e0e1 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -907,13 +907,11 @@ namespace lue::data_model {
                     bool utf8_encoded_strings = info.format.back() == 's';
                     bool unicode_strings = info.format.back() == 'w';
 
-                    if (!utf8_encoded_strings && !unicode_strings)
+                    if ((!utf8_encoded_strings && !unicode_strings) ||
+                        !(values.flags() & py::array::c_style))
                     {
-                        throw std::runtime_error(
-                            std::format(
-                                "Expected array with utf8 encoded strings or "
-                                "Unicode strings, but got array with format {}",
-                                info.format));
+                        // Not an array for this overload, maybe for the last one
+                        throw py::reference_cast_error();
                     }
 
                     hdf5::Shape const shape{array.shape()};
@@ -1034,6 +1032,64 @@ namespace lue::data_model {
                     array.write(hyperslab, hdf5_buffer.data());
                 })
 
+            // Everything else that can be represented by an array. This prevents that values are
+            // implicitly converted to the element type of the first overload above, which may not
+            // be able to represent them.
+            .def(
+                "__setitem__",
+                [](py::object const& self, py::object const& index, py::object const& values) -> void
+                {
+                    bool const is_tuple = py::isinstance<py::tuple>(index);
+
+                    if (!is_tuple && !py::isinstance<py::slice>(index) && !PyIndex_Check(index.ptr()))
+                    {
+                        throw pybind11::index_error("only integers and slices (`:`) are valid indices");
+                    }
+
+                    py::module const numpy{py::module::import("numpy")};
+                    py::object const array{numpy.attr("asarray")(values)};
+                    py::object dtype{array.attr("dtype")};
+                    auto const kind = py::cast<std::string>(dtype.attr("kind"));
+
+                    if (kind == "b")
+                    {
+                        dtype = py::dtype::of<std::uint8_t>();
+                    }
+                    else if (kind == "f" && py::cast<int>(dtype.attr("itemsize")) < 4)
+                    {
+                        dtype = py::dtype::of<float>();
+                    }
+                    else if (kind == "f" && py::cast<int>(dtype.attr("itemsize")) > 8)
+                    {
+                        dtype = py::dtype::of<double>();
+                    }
+                    else if (!py::cast<bool>(dtype.attr("isnative")))
+                    {
+                        dtype = dtype.attr("newbyteorder")("=");
+                    }
+
+                    py::object converted_values{
+                        numpy.attr("asarray")(array, dtype, py::arg("order") = "C")};
+
+                    if ((kind == "b" || kind == "i" || kind == "u" || kind == "f") &&
+                        py::cast<int>(array.attr("ndim")) == 0 && !is_tuple)
+                    {
+                        converted_values = converted_values.attr("item")();
+                    }
+
+                    // Converting the values must have resulted in something new to try
+                    if (converted_values.is(values) ||
+                        (!is_tuple &&
+                         (PyLong_CheckExact(values.ptr()) || PyFloat_CheckExact(values.ptr()))))
+                    {
+                        throw py::type_error(
+                            "values of type " + py::cast<std::string>(py::repr(py::type::of(values))) +
+                            " cannot be assigned using this index");
+                    }
+
+                    self.attr("__setitem__")(index, converted_values);
+                })
+
             ;
     }
 
-- 
2.43.0


From f02c1102ff16fee3ad240d103d034891153cf457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:39 +0000
Subject: [PATCH 38/52] fix: parts of a dataset which are still used in Python
 keep what they are part of alive

---
 source/data_model/python/source/dataset.cpp   | 13 +++-
 .../python/source/object/phenomenon.cpp       |  8 +-
 .../python/source/object/property_set.cpp     | 78 ++++++++++++-------
 3 files changed, 64 insertions(+), 35 deletions(-)

diff --git a/source/data_model/python/source/dataset.cpp b/source/data_model/python/source/dataset.cpp
index ec52030..206741d 100644
--- a/source/data_model/python/source/dataset.cpp
+++ b/source/data_model/python/source/dataset.cpp
@@ -129,11 +129,17 @@ namespace lue {
 
                         if (dataset.universes().contains(name))
                         {
-                            result = py::cast(&dataset.universes()[name]);
+                            result = py::cast(
+                                &dataset.universes()[name],
+                                py::return_value_policy::reference_internal,
+                                py::cast(&dataset));
                         }
                         else if (dataset.phenomena().contains(name))
                         {
-                            result = py::cast(&dataset.phenomena()[name]);
+                            result = py::cast(
+                                &dataset.phenomena()[name],
+                                py::return_value_policy::reference_internal,
+                                py::cast(&dataset));
                         }
                         else
                         {
@@ -149,8 +155,7 @@ namespace lue {
                         }
 
                         return result;
-                    },
-                    py::return_value_policy::reference_internal)
+                    })
 
                 ;
 
diff --git a/source/data_model/python/source/object/phenomenon.cpp b/source/data_model/python/source/object/phenomenon.cpp
index 7e8576c..bc5e055 100644
--- a/source/data_model/python/source/object/phenomenon.cpp
+++ b/source/data_model/python/source/object/phenomenon.cpp
@@ -249,9 +249,11 @@ namespace lue {
                         auto& property_sets = property_set_found ? phenomenon.property_sets()
                                                                  : phenomenon.collection_property_sets();
 
-                        return py::cast(&property_sets[property_set_name]);
-                    },
-                    py::return_value_policy::reference_internal)
+                        return py::cast(
+                            &property_sets[property_set_name],
+                            py::return_value_policy::reference_internal,
+                            py::cast(&phenomenon));
+                    })
 
                 .def(
                     "add_property_set",
diff --git a/source/data_model/python/source/object/property_set.cpp b/source/data_model/python/source/object/property_set.cpp
index 25ff653..364ae5f 100644
--- a/source/data_model/python/source/object/property_set.cpp
+++ b/source/data_model/python/source/object/property_set.cpp
@@ -166,11 +166,13 @@ namespace lue {
 
 
         // Return a py::object to a property of the right type. Note that a
-        // reference to the property is stored. The lifetime of this object
-        // is tied to the properties instance passed in.
+        // reference to the property is stored. The object the property is
+        // part of is kept alive by the object returned.
         // TODO Refactor this with property_new
-        py::object property_reference(Properties& properties, std::string const& name)
+        py::object property_reference(
+            Properties& properties, std::string const& name, py::handle const& owner)
         {
+            auto const policy = py::return_value_policy::reference_internal;
             py::object property = py::none();
             auto const shape_per_object = properties.shape_per_object(name);
             auto const value_variability = properties.value_variability(name);
@@ -184,13 +186,15 @@ namespace lue {
                         case ShapePerObject::same:
                         {
                             using Collection = same_shape::Properties;
-                            property = py::cast(&properties.collection<Collection>()[name]);
+                            property = py::cast(
+                                &properties.collection<Collection>()[name], policy, owner);
                             break;
                         }
                         case ShapePerObject::different:
                         {
                             using Collection = different_shape::Properties;
-                            property = py::cast(&properties.collection<Collection>()[name]);
+                            property = py::cast(
+                                &properties.collection<Collection>()[name], policy, owner);
                             break;
                         }
                     }
@@ -211,13 +215,15 @@ namespace lue {
                                 case ShapeVariability::constant:
                                 {
                                     using Collection = same_shape::constant_shape::Properties;
-                                    property = py::cast(&properties.collection<Collection>()[name]);
+                                    property = py::cast(
+                                        &properties.collection<Collection>()[name], policy, owner);
                                     break;
                                 }
                                 case ShapeVariability::variable:
                                 {
                                     using Collection = same_shape::variable_shape::Properties;
-                                    property = py::cast(&properties.collection<Collection>()[name]);
+                                    property = py::cast(
+                                        &properties.collection<Collection>()[name], policy, owner);
                                     break;
                                 }
                             }
@@ -232,13 +238,15 @@ namespace lue {
                                 case ShapeVariability::constant:
                                 {
                                     using Collection = different_shape::constant_shape::Properties;
-                                    property = py::cast(&properties.collection<Collection>()[name]);
+                                    property = py::cast(
+                                        &properties.collection<Collection>()[name], policy, owner);
                                     break;
                                 }
                                 case ShapeVariability::variable:
                                 {
                                     using Collection = different_shape::variable_shape::Properties;
-                                    property = py::cast(&properties.collection<Collection>()[name]);
+                                    property = py::cast(
+                                        &properties.collection<Collection>()[name], policy, owner);
 
                                     break;
                                 }
@@ -325,8 +333,7 @@ namespace lue {
                 .def(
                     "__getitem__",
                     [](Properties& properties, std::string const& name)
-                    { return property_reference(properties, name); },
-                    py::return_value_policy::reference_internal)
+                    { return property_reference(properties, name, py::cast(&properties)); })
 
                 .def_property_readonly(
                     "names",
@@ -480,9 +487,9 @@ namespace lue {
                                 std::format("Property set does not contain property '{}'", property_name));
                         }
 
-                        return property_reference(property_set.properties(), property_name);
-                    },
-                    py::return_value_policy::reference_internal)
+                        return property_reference(
+                            property_set.properties(), property_name, py::cast(&property_set));
+                    })
 
                 .def(
                     "add_property",
@@ -559,6 +566,7 @@ namespace lue {
                             numpy_type_to_memory_datatype(py::dtype::from_args(dtype_args));
                         auto const shape_ = tuple_to_shape(shape);
 
+                        auto const policy = py::return_value_policy::reference_internal;
                         py::object property = py::none();
 
                         switch (value_variability)
@@ -566,15 +574,21 @@ namespace lue {
                             case ValueVariability::constant:
                             {
                                 using Property = same_shape::Property;
-                                property = py::cast(&property_set.properties().add<Property>(
-                                    name, datatype_, shape_, description));
+                                property = py::cast(
+                                    &property_set.properties().add<Property>(
+                                        name, datatype_, shape_, description),
+                                    policy,
+                                    py::cast(&property_set));
                                 break;
                             }
                             case ValueVariability::variable:
                             {
                                 using Property = same_shape::constant_shape::Property;
-                                property = py::cast(&property_set.properties().add<Property>(
-                                    name, datatype_, shape_, description));
+                                property = py::cast(
+                                    &property_set.properties().add<Property>(
+                                        name, datatype_, shape_, description),
+                                    policy,
+                                    py::cast(&property_set));
                                 break;
                             }
                         }
@@ -599,8 +613,7 @@ namespace lue {
         lue.same_shape.constant_shape.Property, depending on the
         *value_variability* passed in
     :raises RuntimeError: In case the property cannot be created
-)",
-                    py::return_value_policy::reference_internal)
+)")
 
 
                 .def(
@@ -653,6 +666,7 @@ namespace lue {
                         auto const datatype_ =
                             numpy_type_to_memory_datatype(py::dtype::from_args(dtype_args));
 
+                        auto const policy = py::return_value_policy::reference_internal;
                         py::object property = py::none();
 
                         switch (shape_per_object)
@@ -672,8 +686,11 @@ namespace lue {
                                     case ShapeVariability::variable:
                                     {
                                         using Property = same_shape::variable_shape::Property;
-                                        property = py::cast(&property_set.properties().add<Property>(
-                                            name, datatype_, rank, description));
+                                        property = py::cast(
+                                            &property_set.properties().add<Property>(
+                                                name, datatype_, rank, description),
+                                            policy,
+                                            py::cast(&property_set));
                                         break;
                                     }
                                 }
@@ -687,15 +704,21 @@ namespace lue {
                                     case ShapeVariability::constant:
                                     {
                                         using Property = different_shape::constant_shape::Property;
-                                        property = py::cast(&property_set.properties().add<Property>(
-                                            name, datatype_, rank, description));
+                                        property = py::cast(
+                                            &property_set.properties().add<Property>(
+                                                name, datatype_, rank, description),
+                                            policy,
+                                            py::cast(&property_set));
                                         break;
                                     }
                                     case ShapeVariability::variable:
                                     {
                                         using Property = different_shape::variable_shape::Property;
-                                        property = py::cast(&property_set.properties().add<Property>(
-                                            name, datatype_, rank, description));
+                                        property = py::cast(
+                                            &property_set.properties().add<Property>(
+                                                name, datatype_, rank, description),
+                                            policy,
+                                            py::cast(&property_set));
                                         break;
                                     }
                                 }
@@ -727,8 +750,7 @@ namespace lue {
         different_shape::variable_shape::Property depending on
         *shape_per_object* and *shape_variability* passed in
     :raises RuntimeError: In case the property cannot be created
-)",
-                    py::return_value_policy::reference_internal)
+)")
 
                 ;
         }
-- 
2.43.0


From 969fc7849abb875ed677823f24b18cb7dd841bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:39 +0000
Subject: [PATCH 39/52] fix: a phenomenon in a universe is not a copy in Python

---
 source/data_model/python/source/object/universe.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/data_model/python/source/object/universe.cpp b/source/data_model/python/source/object/universe.cpp
index 5f6d701..1762bf3 100644
--- a/source/data_model/python/source/object/universe.cpp
+++ b/source/data_model/python/source/object/universe.cpp
@@ -131,9 +131,11 @@ namespace lue {
                                 std::format("Universe does not contain phenomenon '{}'", phenomenon_name));
                         }
 
-                        return py::cast(universe.phenomena()[phenomenon_name]);
-                    },
-                    py::return_value_policy::reference_internal)
+                        return py::cast(
+                            &universe.phenomena()[phenomenon_name],
+                            py::return_value_policy::reference_internal,
+                            py::cast(&universe));
+                    })
 
                 ;
         }
-- 
2.43.0


From 1352c7e8c1538ec836e5355695429aa80e07ed49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:39 +0000
Subject: [PATCH 40/52] fix: expanding values whose shapes differ returns the
 values themselves in Python

---
 source/data_model/python/source/different_shape/value.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/data_model/python/source/different_shape/value.cpp b/source/data_model/python/source/different_shape/value.cpp
index 07206d3..9e81c71 100644
--- a/source/data_model/python/source/different_shape/value.cpp
+++ b/source/data_model/python/source/different_shape/value.cpp
@@ -62,7 +62,8 @@ namespace lue {
                             value.expand(nr_objects, ids.data(), shapes.data());
 
                             return value;
-                        })
+                        },
+                        py::return_value_policy::reference_internal)
 
                     ;
             }
-- 
2.43.0


From ffea2d79863dc4d92710483bec9199414417b6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:08 +0000
Subject: [PATCH 41/52] fix: rasters whose cells are square but for rounding
 can be read

---
 source/data_model/gdal/source/dataset.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/data_model/gdal/source/dataset.cpp b/source/data_model/gdal/source/dataset.cpp
index c952766..670e8a1 100644
--- a/source/data_model/gdal/source/dataset.cpp
+++ b/source/data_model/gdal/source/dataset.cpp
@@ -20,7 +20,11 @@ namespace lue::gdal {
 
         auto cells_are_square(GeoTransform const& geo_transform) -> bool
         {
-            return geo_transform[1] == std::abs(geo_transform[5]);
+            // The width and height may have been obtained by dividing the extents by the number of cells
+            double const width{geo_transform[1]};
+            double const height{std::abs(geo_transform[5])};
+
+            return std::abs(width - height) <= 1e-6 * height;
         }
 
 
-- 
2.43.0


From 565e6dda3669d53e6c67f819c7f3a8eaab53cb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:08 +0000
Subject: [PATCH 42/52] fix: all cells of rasters arrive when they are imported
 or exported by lue_translate

---
 .../translate/source/format/gdal.cpp          | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/source/data_model/translate/source/format/gdal.cpp b/source/data_model/translate/source/format/gdal.cpp
index 1e0d2c7..252582c 100644
--- a/source/data_model/translate/source/format/gdal.cpp
+++ b/source/data_model/translate/source/format/gdal.cpp
@@ -28,7 +28,7 @@ namespace lue::utility {
             block_size_x = std::min(block_size_x, nr_cols);
             block_size_y = std::min(block_size_y, nr_rows);
 
-            return {{nr_cols, nr_rows}, {block_size_x, block_size_y}};
+            return {{nr_rows, nr_cols}, {block_size_y, block_size_x}};
         }
 
 
@@ -197,8 +197,8 @@ namespace lue::utility {
         {
             for (gdal::Count block_x = 0; block_x < nr_blocks_x; ++block_x)
             {
-                auto const [nr_valid_cells_x, nr_valid_cells_y] =
-                    blocks.shape_in_valid_cells({block_x, block_y});
+                auto const [nr_valid_cells_y, nr_valid_cells_x] =
+                    blocks.shape_in_valid_cells({block_y, block_x});
 
 
                 // hdf5::Shape const shape = {
@@ -219,7 +219,11 @@ namespace lue::utility {
                 hdf5::Hyperslab const hyperslab{offset, count};
 
                 value.read(memory_datatype, hyperslab, values.data());
-                raster_band.write_block({block_y, block_x}, values.data());
+                raster_band.write(
+                    {block_y * block_shape[0], block_x * block_shape[1]},
+                    {nr_valid_cells_y, nr_valid_cells_x},
+                    gdal::data_type_v<T>,
+                    values.data());
             }
         }
     }
@@ -297,8 +301,8 @@ namespace lue::utility {
         {
             for (gdal::Count block_x = 0; block_x < nr_blocks_x; ++block_x)
             {
-                auto const [nr_valid_cells_x, nr_valid_cells_y] =
-                    blocks.shape_in_valid_cells({block_x, block_y});
+                auto const [nr_valid_cells_y, nr_valid_cells_x] =
+                    blocks.shape_in_valid_cells({block_y, block_x});
 
                 hdf5::Offset offset{
                     static_cast<hdf5::Offset::value_type>(block_y * block_shape[0]),
@@ -309,7 +313,11 @@ namespace lue::utility {
                 hdf5::Hyperslab const hyperslab{offset, count};
 
                 array.read(memory_datatype, hyperslab, values.data());
-                raster_band.write_block({block_y, block_x}, values.data());
+                raster_band.write(
+                    {block_y * block_shape[0], block_x * block_shape[1]},
+                    {nr_valid_cells_y, nr_valid_cells_x},
+                    gdal::data_type_v<T>,
+                    values.data());
             }
         }
     }
@@ -855,8 +863,8 @@ namespace lue::utility {
         {
             for (gdal::Count block_x = 0; block_x < nr_blocks_x; ++block_x)
             {
-                auto const [nr_valid_cells_x, nr_valid_cells_y] =
-                    blocks.shape_in_valid_cells({block_x, block_y});
+                auto const [nr_valid_cells_y, nr_valid_cells_x] =
+                    blocks.shape_in_valid_cells({block_y, block_x});
 
                 hdf5::Offset offset{
                     static_cast<hdf5::Offset::value_type>(block_y * block_shape[0]),
@@ -866,7 +874,11 @@ namespace lue::utility {
                     static_cast<hdf5::Count::value_type>(nr_valid_cells_x)};
                 hdf5::Hyperslab hyperslab{offset, count};
 
-                gdal_raster_band.read_block({block_y, block_x}, values.data());
+                gdal_raster_band.read(
+                    {block_y * block_shape[0], block_x * block_shape[1]},
+                    {nr_valid_cells_y, nr_valid_cells_x},
+                    gdal::data_type_v<T>,
+                    values.data());
                 hdf5::Shape const shape = {
                     static_cast<hdf5::Shape::value_type>(nr_valid_cells_x * nr_valid_cells_y)};
                 auto memory_dataspace = hdf5::create_dataspace(shape);
-- 
2.43.0


From c2aa21e7d0e3b50449030397bf4adb82c0babeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:08 +0000
Subject: [PATCH 43/52] fix: rasters can be added to an existing dataset by
 lue_translate

---
 source/data_model/translate/source/format/gdal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/translate/source/format/gdal.cpp b/source/data_model/translate/source/format/gdal.cpp
index 252582c..075f0fc 100644
--- a/source/data_model/translate/source/format/gdal.cpp
+++ b/source/data_model/translate/source/format/gdal.cpp
@@ -996,7 +996,7 @@ namespace lue::utility {
                 throw std::runtime_error(std::format("Dataset {} already exists", lue_dataset_name));
             }
 
-            return ldm::open_dataset(lue_dataset_name);
+            return ldm::open_dataset(lue_dataset_name, H5F_ACC_RDWR);
         };
 
         ldm::Dataset dataset{!ldm::dataset_exists(lue_dataset_name) ? create_dataset() : open_dataset()};
-- 
2.43.0


From 732f1dc2f3df29af44daaacd702906b1f82fe996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:08 +0000
Subject: [PATCH 44/52] fix: layers of 8 bit signed integers can be exported by
 lue_translate

---
 source/data_model/translate/source/format/gdal.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/data_model/translate/source/format/gdal.cpp b/source/data_model/translate/source/format/gdal.cpp
index 075f0fc..dbb3c20 100644
--- a/source/data_model/translate/source/format/gdal.cpp
+++ b/source/data_model/translate/source/format/gdal.cpp
@@ -241,6 +241,12 @@ namespace lue::utility {
         {
             lue_to_gdal<std::uint8_t>(value, time_point_idx, time_step_idx, raster_band);
         }
+#if LUE_GDAL_SUPPORTS_8BIT_SIGNED_INTEGERS
+        else if (memory_datatype == hdf5::native_int8)
+        {
+            lue_to_gdal<std::int8_t>(value, time_point_idx, time_step_idx, raster_band);
+        }
+#endif
         else if (memory_datatype == hdf5::native_uint16)
         {
             lue_to_gdal<std::uint16_t>(value, time_point_idx, time_step_idx, raster_band);
@@ -331,6 +337,12 @@ namespace lue::utility {
         {
             lue_to_gdal<std::uint8_t>(array, raster_band);
         }
+#if LUE_GDAL_SUPPORTS_8BIT_SIGNED_INTEGERS
+        else if (memory_datatype == hdf5::native_int8)
+        {
+            lue_to_gdal<std::int8_t>(array, raster_band);
+        }
+#endif
         else if (memory_datatype == hdf5::native_uint16)
         {
             lue_to_gdal<std::uint16_t>(array, raster_band);
-- 
2.43.0


From 9a4c7619c9fa369f3121fdec946c4a85231dd396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:42 +0000
Subject: [PATCH 45/52] fix: space boxes of rasters end at the rasters'
 southern border

Cells of north-up rasters have a negative height. The south of the box
ended up as far north of the raster as it should be south of it.
---
 source/data_model/translate/source/format/json.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/data_model/translate/source/format/json.cpp b/source/data_model/translate/source/format/json.cpp
index d31476c..7df5b6d 100644
--- a/source/data_model/translate/source/format/json.cpp
+++ b/source/data_model/translate/source/format/json.cpp
@@ -3,6 +3,7 @@
 #include "lue/translate/format/gdal.hpp"
 #include "lue/utility/environment.hpp"
 #include <algorithm>
+#include <cmath>
 #include <optional>
 
 
@@ -126,7 +127,7 @@ namespace lue::utility {
             auto const [west, cell_width, row_rotation, north, col_rotation, cell_height] =
                 raster.geo_transform();
             double const east = west + (nr_cols * cell_width);
-            double const south = north - (nr_rows * cell_height);
+            double const south = north - (nr_rows * std::abs(cell_height));
 
             std::array<double, 4> space_box{west, south, east, north};
 
-- 
2.43.0


From 9c7d66ba7fbd269a393eaf3ac83c645462fead63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:42 +0000
Subject: [PATCH 46/52] fix: strings can be imported from JSON

The string objects themselves were passed to HDF5, which expects pointers
to characters.
---
 .../translate/source/format/json.cpp          | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/source/data_model/translate/source/format/json.cpp b/source/data_model/translate/source/format/json.cpp
index 7df5b6d..759cd8c 100644
--- a/source/data_model/translate/source/format/json.cpp
+++ b/source/data_model/translate/source/format/json.cpp
@@ -30,6 +30,24 @@ namespace lue::utility {
         }
 
 
+        template<typename Datatype>
+        auto hdf5_elements(std::vector<Datatype> const& values) -> std::vector<Datatype> const&
+        {
+            return values;
+        }
+
+
+        // HDF5 expects pointers to the characters of variable length strings
+        auto hdf5_elements(std::vector<std::string> const& values) -> std::vector<char const*>
+        {
+            std::vector<char const*> elements(values.size());
+            std::ranges::transform(
+                values, elements.begin(), [](auto const& value) -> auto { return value.c_str(); });
+
+            return elements;
+        }
+
+
         template<typename Collection>
         auto read_gdal_raster(std::string const& pathname, Collection& collection) -> hdf5::Shape
         {
@@ -277,7 +295,7 @@ namespace lue::utility {
             auto const nr_object_arrays = values.size() / nr_elements_in_object_array;
             data_model::IndexRange const index_range{begin, begin + nr_object_arrays};
             property.value().expand(nr_object_arrays);
-            property.value().write(index_range, values.data());
+            property.value().write(index_range, hdf5_elements(values).data());
 
 
             // TODO(KDJ)
@@ -326,7 +344,7 @@ namespace lue::utility {
                 // assert(!property.value().exists(id));
 
                 property.value().expand(1, &id, &shape);
-                property.value()[id].write(values.data());
+                property.value()[id].write(hdf5_elements(values).data());
             }
 
             if (contains(property_json, "space_discretization"))
-- 
2.43.0


From 260e97d64cf1e10295a995f38374cc0d0dc83c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:42 +0000
Subject: [PATCH 47/52] fix: active object indices are appended to those
 imported before

They overwrote the first ones, leaving new ones without a value.
---
 source/data_model/translate/source/format/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/translate/source/format/json.cpp b/source/data_model/translate/source/format/json.cpp
index 759cd8c..b30c5e7 100644
--- a/source/data_model/translate/source/format/json.cpp
+++ b/source/data_model/translate/source/format/json.cpp
@@ -105,7 +105,7 @@ namespace lue::utility {
                 // is not available yet here... FIXME
 
                 // Add indices to dataset
-                data_model::Index const begin = 0;
+                data_model::Index const begin = active_object_idx.nr_indices();
                 data_model::IndexRange const index_range{begin, begin + idxs.size()};
                 active_object_idx.expand(idxs.size());
                 active_object_idx.write(index_range, idxs.data());
-- 
2.43.0


From aaf5877d6991054f7edc372742483cbe510557f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:52 +0000
Subject: [PATCH 48/52] fix: values that do not fit the property they are for
 are refused by lue_translate

They were written nevertheless, with HDF5 reading past the end of the
values, or GDAL writing past the end of the memory they are read into.
---
 .../translate/source/format/json.cpp          | 85 +++++++++++++++++--
 1 file changed, 79 insertions(+), 6 deletions(-)

diff --git a/source/data_model/translate/source/format/json.cpp b/source/data_model/translate/source/format/json.cpp
index b30c5e7..d3eed88 100644
--- a/source/data_model/translate/source/format/json.cpp
+++ b/source/data_model/translate/source/format/json.cpp
@@ -48,6 +48,45 @@ namespace lue::utility {
         }
 
 
+        template<typename Property>
+        void verify_datatype_is_compatible(Property& property, hdf5::Datatype const& datatype)
+        {
+            if (!(property.value().memory_datatype() == datatype))
+            {
+                throw std::runtime_error(
+                    std::format(
+                        "Datatype of existing property at {} does not match the one in the JSON file",
+                        property.id().pathname()));
+            }
+        }
+
+
+        template<typename Property>
+        void verify_array_shape_is_compatible(Property& property, hdf5::Shape const& shape)
+        {
+            if (property.value().array_shape() != shape)
+            {
+                throw std::runtime_error(
+                    std::format(
+                        "Shape of existing property at {} does not match the one in the JSON file",
+                        property.id().pathname()));
+            }
+        }
+
+
+        template<typename Property>
+        void verify_value_is_compatible(Property& property, hdf5::Shape const& shape, std::size_t const nr_values)
+        {
+            if (shape.size() != property.value().rank() || size_of_shape(shape, 1) != nr_values)
+            {
+                throw std::runtime_error(
+                    std::format(
+                        "Number of values or shape of an object array does not match ({})",
+                        property.id().pathname()));
+            }
+        }
+
+
         template<typename Collection>
         auto read_gdal_raster(std::string const& pathname, Collection& collection) -> hdf5::Shape
         {
@@ -55,12 +94,20 @@ namespace lue::utility {
             gdal::Raster raster{gdal::open_dataset(pathname, GDALAccess::GA_ReadOnly)};
 
             // Verify dataset is OK for us
-            assert(raster.nr_bands() == 1);
+            if (raster.nr_bands() != 1)
+            {
+                throw std::runtime_error(
+                    std::format("Expected a single band in {}, but found {}", pathname, raster.nr_bands()));
+            }
+
             auto band = raster.band(1);
 
-            assert(
-                gdal_data_type_to_memory_data_type(band.data_type()) ==
-                hdf5::native_datatype<typename Collection::value_type>());
+            if (!(gdal_data_type_to_memory_data_type(band.data_type()) ==
+                  hdf5::native_datatype<typename Collection::value_type>()))
+            {
+                throw std::runtime_error(
+                    std::format("Type of the cells in {} is not the one in the JSON file", pathname));
+            }
 
             // Read all cells
             auto const [nr_rows, nr_cols] = raster.shape();
@@ -291,6 +338,9 @@ namespace lue::utility {
             auto& property =
                 properties.contains(name) ? properties[name] : properties.add(name, datatype, shape);
 
+            verify_datatype_is_compatible(property, datatype);
+            verify_array_shape_is_compatible(property, shape);
+
             data_model::Index const begin = property.value().nr_arrays();
             auto const nr_object_arrays = values.size() / nr_elements_in_object_array;
             data_model::IndexRange const index_range{begin, begin + nr_object_arrays};
@@ -316,6 +366,8 @@ namespace lue::utility {
             auto& property =
                 properties.contains(name) ? properties[name] : properties.add(name, datatype, rank);
 
+            verify_datatype_is_compatible(property, datatype);
+
             hdf5::Shape shape;
             std::vector<Datatype> values;
 
@@ -343,6 +395,7 @@ namespace lue::utility {
                 // already exist.
                 // assert(!property.value().exists(id));
 
+                verify_value_is_compatible(property, shape, values.size());
                 property.value().expand(1, &id, &shape);
                 property.value()[id].write(hdf5_elements(values).data());
             }
@@ -442,6 +495,9 @@ namespace lue::utility {
             auto& property =
                 properties.contains(name) ? properties[name] : properties.add(name, datatype, shape);
 
+            verify_datatype_is_compatible(property, datatype);
+            verify_array_shape_is_compatible(property, shape);
+
             // TODO(KDJ)
             // datatype, shape must match, etc
             // branch on contains()
@@ -536,6 +592,8 @@ namespace lue::utility {
             auto& property =
                 properties.contains(name) ? properties[name] : properties.add(name, datatype, rank);
 
+            verify_datatype_is_compatible(property, datatype);
+
             auto& value = property.value();
 
             hdf5::Shape shape;
@@ -602,6 +660,8 @@ namespace lue::utility {
             auto& property =
                 properties.contains(name) ? properties[name] : properties.add(name, datatype, rank);
 
+            verify_datatype_is_compatible(property, datatype);
+
             // TODO(KDJ)
             // datatype, rank must match, etc
             // branch on contains()
@@ -612,10 +672,23 @@ namespace lue::utility {
 
             std::vector<hdf5::Shape> const shape = property_json.at("shape");
             std::vector<data_model::Index> const object_id = property_json.at("object_id");
-            assert(values.size() == object_id.size());
-            assert(shape.size() == object_id.size());
             auto const nr_objects = shape.size();
 
+            if (values.size() != nr_objects || object_id.size() != nr_objects)
+            {
+                throw std::runtime_error(
+                    std::format(
+                        "Number of values ({}), shapes ({}) and object IDs ({}) differ",
+                        values.size(),
+                        nr_objects,
+                        object_id.size()));
+            }
+
+            for (std::size_t object_idx = 0; object_idx < nr_objects; ++object_idx)
+            {
+                verify_value_is_compatible(property, shape[object_idx], values[object_idx].size());
+            }
+
             auto object_arrays =
                 value.expand(value.nr_locations_in_time(), nr_objects, object_id.data(), shape.data());
 
-- 
2.43.0


From bb55e739c5038da0c766e62a72477afea2fe9cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:50 +0000
Subject: [PATCH 49/52] fix: properties of phenomena in universes can refer to
 other properties by path

The dataset was assumed to be the parent of the phenomena, which is the
universe in their case.
---
 source/data_model/cxx/include/lue/navigate.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/data_model/cxx/include/lue/navigate.hpp b/source/data_model/cxx/include/lue/navigate.hpp
index a0b366c..175bd76 100644
--- a/source/data_model/cxx/include/lue/navigate.hpp
+++ b/source/data_model/cxx/include/lue/navigate.hpp
@@ -34,7 +34,10 @@ namespace lue::data_model {
     template<typename Property>
     auto dataset_group(Property const& property) -> hdf5::Group
     {
-        return phenomena_group(property).parent();
+        auto group = phenomena_group(property).parent();
+
+        // Phenomena are part of the dataset itself or of one of its universes
+        return group.id().pathname() == "/" ? group : group.parent().parent();
     }
 
 
-- 
2.43.0


From a16c018b73ca8d4cabdd48434913b9008aa2cc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:53 +0000
Subject: [PATCH 50/52] fix: rasters of another extent are not added to a
 property set by lue_translate

All layers in a property set share its space box and discretization. Cells
of other rasters ended up at other locations.
---
 .../data_model/translate/source/format/gdal.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/source/data_model/translate/source/format/gdal.cpp b/source/data_model/translate/source/format/gdal.cpp
index dbb3c20..c2fc6d1 100644
--- a/source/data_model/translate/source/format/gdal.cpp
+++ b/source/data_model/translate/source/format/gdal.cpp
@@ -1,6 +1,8 @@
 #include "lue/translate/format/gdal.hpp"
 #include "lue/data_model/hl.hpp"
 #include "lue/translate/stack_name.hpp"
+#include <algorithm>
+#include <cmath>
 
 
 namespace lue::utility {
@@ -1064,6 +1066,21 @@ namespace lue::utility {
                           &dataset, phenomenon_name, property_set_name, grid_shape, space_box)
                     : ldm::constant::open_raster_view(&dataset, phenomenon_name, property_set_name)};
 
+            // All layers in a property-set share the same space box and discretization
+            if (raster_view.grid_shape() != grid_shape ||
+                !std::ranges::equal(
+                    raster_view.space_box(),
+                    space_box,
+                    [max_difference = 0.01 * cell_width](double const lhs, double const rhs) -> bool
+                    { return std::abs(lhs - rhs) <= max_difference; }))
+            {
+                throw std::runtime_error(
+                    std::format(
+                        "Shape or extent of raster {} differs from those of the layers in property-set {}",
+                        gdal_dataset_name,
+                        property_set_name));
+            }
+
             // Add raster layers from input raster(s)
 
             auto const bands_json = json::object(raster_json, "bands");
-- 
2.43.0


From b936dd7b6874cf9212f7ef5581879e9d8d348309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:49 +0000
Subject: [PATCH 51/52] fix: range: number cells right when the last partition
 is larger

The last partition along a dimension contains the remaining cells. The width of the
first partition was used for each of them, so cells of the second and later rows of
partitions got the numbers of cells in the row of partitions above.
---
 .../algorithm/include/lue/framework/algorithm/range.hpp   | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/range.hpp b/source/framework/algorithm/include/lue/framework/algorithm/range.hpp
index d030387..8cfabb9 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/range.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/range.hpp
@@ -99,8 +99,6 @@ namespace lue {
 
         std::vector<hpx::future<Shape>> partition_shapes(nr_partitions);
 
-        // TODO: We are only using the first column of partition shapes, but here we are asking for all of
-        // them
         for (Index partition_idx = 0; partition_idx < nr_partitions; ++partition_idx)
         {
             InputPartition& partition = partitions[partition_idx];
@@ -149,8 +147,7 @@ namespace lue {
 
                         for (Index idx0 = 0; idx0 < nr_partitions0; ++idx0)
                         {
-                            auto const [partition_nr_elements0, partition_nr_elements1] =
-                                partition_shapes_span[idx0, 0];
+                            auto const partition_nr_elements0 = std::get<0>(partition_shapes_span[idx0, 0]);
 
                             for (Index idx1 = 0; idx1 < nr_partitions1; ++idx1)
                             {
@@ -161,7 +158,8 @@ namespace lue {
                                 range_partitions_span[idx0, idx1] = hpx::async(
                                     action, localities(idx0, idx1), input_partition, start_value, stride);
 
-                                start_value += partition_nr_elements1;
+                                // The last partition along a dimension can be larger than the other ones
+                                start_value += std::get<1>(partition_shapes_span[idx0, idx1]);
                             }
 
                             start_value += (partition_nr_elements0 - 1) * stride;
-- 
2.43.0


From b126d90d986a5a4ac31a08a7dcc2a3dc618ebf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:06 +0000
Subject: [PATCH 52/52] fix: partition_operation: position results of larger
 last partitions right

The position of a partition among the other ones was computed by dividing its offset
by its own shape, which is wrong for the last partition along a dimension when that
contains more cells than the other ones.
---
 .../algorithm/partition_operation.hpp         | 48 ++++++++-----------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/source/framework/algorithm/include/lue/framework/algorithm/partition_operation.hpp b/source/framework/algorithm/include/lue/framework/algorithm/partition_operation.hpp
index f47bd9b..5f75616 100644
--- a/source/framework/algorithm/include/lue/framework/algorithm/partition_operation.hpp
+++ b/source/framework/algorithm/include/lue/framework/algorithm/partition_operation.hpp
@@ -1,45 +1,37 @@
 #pragma once
 #include "lue/framework/algorithm/functor_traits.hpp"
 #include "lue/framework/core/annotate.hpp"
+#include "lue/framework/core/index_util.hpp"
 #include "lue/framework/partitioned_array_decl.hpp"
 
 
 namespace lue {
     namespace detail {
 
-        template<typename Offset, typename Shape>
-        auto offset_in_partitions(Offset const& partition_offset, Shape const& partition_shape) -> Offset
-        {
-            Offset result{partition_offset};
-            constexpr Rank rank{lue::rank<Offset>};
-
-            for (std::size_t i = 0; i < rank; ++i)
-            {
-                lue_hpx_assert(result[i] % partition_shape[i] == 0);
-                result[i] /= partition_shape[i];
-            }
-
-            return result;
-        }
-
-
         template<typename Policies, typename InputPartition, typename OutputPartition, typename Functor>
         auto partition_aggregate_operation_partition(
-            Policies const& policies, InputPartition const& input_partition, Functor functor)
-            -> OutputPartition
+            Policies const& policies,
+            InputPartition const& input_partition,
+            Functor functor,
+            Index const partition_idx,
+            ShapeT<InputPartition> const& shape_in_partitions) -> OutputPartition
         {
-            using Offset = OffsetT<InputPartition>;
+            using Offset = OffsetT<OutputPartition>;
             using InputData = DataT<InputPartition>;
             using OutputElement = ElementT<OutputPartition>;
 
+            // Position of the partition among the other ones. The last partition along a dimension can be
+            // larger than the other ones, so this can't be computed given its offset and shape.
+            Offset const partition_offset{linear_idx_to_idxs(partition_idx, shape_in_partitions)};
+
             return hpx::dataflow(
                 hpx::launch::async,
 
-                [policies, functor](InputPartition const& input_partition) mutable -> OutputPartition
+                [policies, functor, partition_offset](
+                    InputPartition const& input_partition) mutable -> OutputPartition
                 {
                     AnnotateFunction annotation{"partition_aggregate_operation_partition"};
 
-                    Offset const offset = input_partition.offset(hpx::launch::sync);
                     InputData const input_partition_data = input_partition.data(hpx::launch::sync);
 
                     auto const& indp = std::get<0>(policies.inputs_policies()).input_no_data_policy();
@@ -66,11 +58,7 @@ namespace lue {
                         ondp.mark_no_data(result);
                     }
 
-                    OutputPartition output_partition{
-                        hpx::find_here(),
-                        offset_in_partitions(offset, input_partition_data.shape()),
-                        {1, 1},
-                        result};
+                    OutputPartition output_partition{hpx::find_here(), partition_offset, {1, 1}, result};
 
                     return output_partition;
                 },
@@ -130,7 +118,13 @@ namespace lue {
         for (Index partition_idx = 0; partition_idx < nr_partitions; ++partition_idx)
         {
             output_partitions[partition_idx] = hpx::async(
-                action, localities[partition_idx], policies, input_partitions[partition_idx], functor);
+                action,
+                localities[partition_idx],
+                policies,
+                input_partitions[partition_idx],
+                functor,
+                partition_idx,
+                output_partitions.shape());
         }
 
         return OutputArray{
-- 
2.43.0

