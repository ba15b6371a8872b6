From 9e090a7356ce340fdb9f6ee66c44fb089ca813b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 01/67] fix: keep collective I/O calls matched when block sizes
 differ between processes

---
 src/DataMPIIO.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index 1730e95..c10d340 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -442,12 +442,14 @@ void DataMPIIO::contigIO(
 {
     MPI_Status stat;
     size_t max = maxSize / osz;
-    auto vec   = piol_->comm->gather<size_t>(sz);
 
-    size_t remCall = *std::max_element(vec.begin(), vec.end());
+    // The number of calls depends on both the amount of data and the block
+    // geometry, and both may differ between processes.
+    const size_t numCall = sz / max + static_cast<size_t>(sz % max > 0);
 
-    remCall = (remCall / max + static_cast<size_t>(remCall % max > 0))
-              - (sz / max + static_cast<size_t>(sz % max > 0));
+    auto vec = piol_->comm->gather<size_t>(numCall);
+
+    size_t remCall = *std::max_element(vec.begin(), vec.end()) - numCall;
 
     for (size_t i = 0; i < sz; i += max) {
         size_t chunk = std::min(sz - i, max);
@@ -491,11 +493,12 @@ void DataMPIIO::listIO(
     size_t max     = maxSize / (bsz != 0 ? bsz * 2LU : 1LU);
     size_t remCall = 0;
     {
-        auto vec = piol_->comm->gather<size_t>(sz);
-        remCall  = *std::max_element(vec.begin(), vec.end());
+        // The number of calls depends on both the amount of data and the block
+        // size, and both may differ between processes.
+        const size_t numCall = sz / max + static_cast<size_t>(sz % max > 0);
 
-        remCall = remCall / max + static_cast<size_t>(remCall % max > 0)
-                  - ((sz / max) + static_cast<size_t>(sz % max > 0));
+        auto vec = piol_->comm->gather<size_t>(numCall);
+        remCall  = *std::max_element(vec.begin(), vec.end()) - numCall;
     }
 
     MPI_Status stat;
-- 
2.43.0


From 76b482cf3dc03cef19e25c3bedb76d63cbc5d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 02/67] fix: report failures in listed and strided I/O and keep
 taking part in the collective calls

---
 src/DataMPIIO.cc | 73 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 23 deletions(-)

diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index c10d340..ba95a8f 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -154,24 +154,31 @@ int iol(
   MPI_Status* stat)
 {
     // Set a view so that MPI_File_read... functions only see contiguous data.
-    MPI_Datatype type;
+    MPI_Datatype type = MPI_DATATYPE_NULL;
     int err = randBlockView(file, info, chunk, bsz, offset, &type);
-    if (err != MPI_SUCCESS) {
-        return err;
-    }
 
-    fn(file, 0, d, chunk * bsz, MPI_CHAR, stat);
-    if (err != MPI_SUCCESS) {
-        return err;
-    }
+    // The I/O call and the reset of the view are collective, so they have to be
+    // made even if there was an error. Without a view no data is transferred.
+    const int ioErr =
+      fn(file, 0, d, (err == MPI_SUCCESS ? chunk * bsz : 0), MPI_CHAR, stat);
 
     // Reset the view.
-    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
-    if (err != MPI_SUCCESS) {
-        return err;
+    const int viewErr =
+      MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+
+    int freeErr = MPI_SUCCESS;
+    if (type != MPI_DATATYPE_NULL) {
+        freeErr = MPI_Type_free(&type);
+    }
+
+    // Return the first error.
+    for (int e : {ioErr, viewErr, freeErr}) {
+        if (err == MPI_SUCCESS) {
+            err = e;
+        }
     }
 
-    return MPI_Type_free(&type);
+    return err;
 }
 
 /////////////////////////////    Class functions    ////////////////////////////
@@ -397,7 +404,7 @@ void DataMPIIO::readv(
     }
 
     // Set a view so that MPI_File_read... functions only see contiguous data.
-    MPI_Datatype view;
+    MPI_Datatype view = MPI_DATATYPE_NULL;
     int err = strideView(file, info, offset, bsz, osz, nb, &view);
     if (err != MPI_SUCCESS) {
         log_->record(
@@ -407,11 +414,22 @@ void DataMPIIO::readv(
           PIOL_VERBOSITY_NONE);
     }
 
-    read(0LU, nb * bsz, d);
+    // Without a view no data is transferred, but the call is still collective.
+    read(0LU, (err == MPI_SUCCESS ? nb * bsz : 0LU), d);
 
     // Reset the view.
-    MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
-    MPI_Type_free(&view);
+    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+    if (err != MPI_SUCCESS) {
+        log_->record(
+          name_, Logger::Layer::Data, Logger::Status::Error,
+          "Failed to reset the view: "s
+            + exseis::utils::MPI_error_to_string(err),
+          PIOL_VERBOSITY_NONE);
+    }
+
+    if (view != MPI_DATATYPE_NULL) {
+        MPI_Type_free(&view);
+    }
 }
 
 void DataMPIIO::read(
@@ -510,14 +528,12 @@ void DataMPIIO::listIO(
           fn, file, info, bsz, chunk,
           reinterpret_cast<const MPI_Aint*>(&offset[i]), &d[i * bsz], &stat);
 
-        // Log and break on failure
+        // Log on failure, but carry on, as the other processes will
         if (err != MPI_SUCCESS) {
             log_->record(
               name_, Logger::Layer::Data, Logger::Status::Error,
               msg + exseis::utils::MPI_error_to_string(err, &stat),
               PIOL_VERBOSITY_NONE);
-
-            break;
         }
     }
 
@@ -568,7 +584,7 @@ void DataMPIIO::writev(
     }
 
     // Set a view so that MPI_File_read... functions only see contiguous data.
-    MPI_Datatype view;
+    MPI_Datatype view = MPI_DATATYPE_NULL;
     int err = strideView(file, info, offset, bsz, osz, nb, &view);
 
     if (err != MPI_SUCCESS) {
@@ -579,11 +595,22 @@ void DataMPIIO::writev(
           PIOL_VERBOSITY_NONE);
     }
 
-    write(0LU, nb * bsz, d);
+    // Without a view no data is transferred, but the call is still collective.
+    write(0LU, (err == MPI_SUCCESS ? nb * bsz : 0LU), d);
 
     // Reset the view.
-    MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
-    MPI_Type_free(&view);
+    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+    if (err != MPI_SUCCESS) {
+        log_->record(
+          name_, Logger::Layer::Data, Logger::Status::Error,
+          "Failed to reset the view: "s
+            + exseis::utils::MPI_error_to_string(err),
+          PIOL_VERBOSITY_NONE);
+    }
+
+    if (view != MPI_DATATYPE_NULL) {
+        MPI_Type_free(&view);
+    }
 }
 
 void DataMPIIO::write(size_t offset, size_t sz, const unsigned char* d) const
-- 
2.43.0


From 8209ec781e35ebcaec439e50f912a2035ea3adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:06 +0000
Subject: [PATCH 03/67] fix: do not extend the output file for a zero-length
 write beyond its end

---
 src/WriteSEGY.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index 4852eb7..97bf630 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -291,7 +291,10 @@ void WriteSEGY::writeTrace(
 
     writeTraceT(obj.get(), ns, offset, sz, trc, prm, skip);
     state.stalent = true;
-    nt            = std::max(offset + sz, nt);
+    // A process which writes nothing does not extend the file
+    if (sz != 0) {
+        nt = std::max(offset + sz, nt);
+    }
 }
 
 void WriteSEGY::writeTraceNonContiguous(
-- 
2.43.0


From 8ac4a8b1ac553e21379785b031b585656f3ec689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 04/67] fix: deliver nothing when a read starts past the last
 trace

---
 src/ReadSEGY.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 4a76b1d..2705f40 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -216,7 +216,8 @@ void ReadSEGY::readTrace(
   Param* prm,
   const size_t skip) const
 {
-    size_t ntz = ((sz == 0) ? sz : (offset + sz > nt ? nt - offset : sz));
+    // Only the traces which exist are read
+    const size_t ntz = (offset < nt ? std::min(sz, nt - offset) : 0LU);
     if (offset >= nt && sz != 0) {
         // Nothing to be read.
         piol->log->record(
-- 
2.43.0


From eb9c9076dd2a2262e3824b44dd790e5e72176b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 05/67] fix: unordered reads of no traces, and without trace
 parameters

---
 src/ReadSEGY.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 2705f40..781da59 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -251,20 +251,24 @@ void ReadSEGY::readTraceNonMonotonic(
     // Sort the initial offset and make a new offset without duplicates
     auto idx = getSortIndex(sz, offset);
     std::vector<size_t> nodups;
-    nodups.push_back(offset[idx[0]]);
-    for (size_t j = 1; j < sz; j++) {
-        if (offset[idx[j - 1]] != offset[idx[j]]) {
+    for (size_t j = 0; j < sz; j++) {
+        if (j == 0 || offset[idx[j - 1]] != offset[idx[j]]) {
             nodups.push_back(offset[idx[j]]);
         }
     }
 
-    Param sprm(prm->r, (prm != PIOL_PARAM_NULL ? nodups.size() : 0LU));
+    // There is no rule to follow if the parameters are not wanted
+    std::unique_ptr<Param> sprm;
+    if (prm != PIOL_PARAM_NULL) {
+        sprm = std::make_unique<Param>(prm->r, nodups.size());
+    }
+
     std::vector<exseis::utils::Trace_value> strc(
       ns * (trc != TRACE_NULL ? nodups.size() : 0LU));
 
     readTraceNonContiguous(
       nodups.size(), nodups.data(), (trc != TRACE_NULL ? strc.data() : trc),
-      (prm != PIOL_PARAM_NULL ? &sprm : prm), 0LU);
+      (prm != PIOL_PARAM_NULL ? sprm.get() : prm), 0LU);
 
     if (prm != PIOL_PARAM_NULL) {
         for (size_t n = 0, j = 0; j < sz; ++j) {
@@ -272,7 +276,7 @@ void ReadSEGY::readTraceNonMonotonic(
                 n++;
             }
 
-            param_utils::cpyPrm(n, &sprm, skip + idx[j], prm);
+            param_utils::cpyPrm(n, sprm.get(), skip + idx[j], prm);
         }
     }
 
-- 
2.43.0


From ca7380492cf233376002691ca31a38f38493ba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 06/67] fix: decode IBM floating point samples from the bytes
 of the file

---
 src/ReadSEGY.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 781da59..30a1fb7 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -185,14 +185,12 @@ void readTraceT(
         // Convert trace values from SEGY floating point format to host format
         if (number_format == SEGYNumberFormat::IBM) {
             for (size_t i = 0; i < ns * sz; i++) {
-                const exseis::utils::Floating_point be_trc_i = trc[i];
-
-                const unsigned char* be_trc_i_bytes =
-                  reinterpret_cast<const unsigned char*>(&be_trc_i);
-
-                std::array<unsigned char, 4> be_bytes_array = {
-                  {be_trc_i_bytes[0], be_trc_i_bytes[1], be_trc_i_bytes[2],
-                   be_trc_i_bytes[3]}};
+                // The bytes in the order they have in the file
+                const std::array<unsigned char, 4> be_bytes_array = {
+                  {tbuf[i * sizeof(exseis::utils::Trace_value) + 0],
+                   tbuf[i * sizeof(exseis::utils::Trace_value) + 1],
+                   tbuf[i * sizeof(exseis::utils::Trace_value) + 2],
+                   tbuf[i * sizeof(exseis::utils::Trace_value) + 3]}};
 
                 trc[i] = from_IBM_to_float(be_bytes_array, true);
             }
-- 
2.43.0


From af2211e0ddd12db497450cbb5d69ef78d0d6510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:42 +0000
Subject: [PATCH 07/67] fix: give an output file its own size when the path
 held another file

---
 src/WriteSEGY.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index 97bf630..70752d3 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -40,6 +40,8 @@ WriteSEGY::WriteSEGY(
 {
     memset(&state, 0, sizeof(Flags));
     state.writeHO = true;
+    // The path may hold another file, with a size of its own
+    state.resize = true;
 }
 
 WriteSEGY::WriteSEGY(
-- 
2.43.0


From 9070022d934a2e67e8ca28e1e0431bbde865fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 08/67] fix: decode IBM zeros, unnormalised and very small
 numbers exactly

---
 src/utils/encoding/number_encoding.cc | 41 +++++++++++++--------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/utils/encoding/number_encoding.cc b/src/utils/encoding/number_encoding.cc
index 0eaee29..52a75e1 100644
--- a/src/utils/encoding/number_encoding.cc
+++ b/src/utils/encoding/number_encoding.cc
@@ -7,6 +7,7 @@
 #include "ExSeisDat/utils/encoding/number_encoding.hh"
 #include "ExSeisDat/utils/typedefs.h"
 
+#include <algorithm>
 #include <cstring>
 
 namespace exseis {
@@ -44,15 +45,16 @@ Float_components from_IBM(
     // bit.
 
     // The first 24 bits make up the fraction. If it's zero we can stop,
-    // because that is defined as zero.
+    // because that is defined as zero, whatever the exponent.
     const uint32_t frac = (ibm_bits & 0x00FFFFFF);
-    if (frac == 0) {
-        return {0, 0, 0};
-    }
 
     // Extract the sign of the fraction (bit 31)
     const uint32_t sign = (ibm_bits >> 31) & 0x01;
 
+    if (frac == 0) {
+        return {sign, 0, 0};
+    }
+
     // Extract the exponent (bits 24 to 30)
     const uint32_t ibm_exponent_bits = (ibm_bits >> 24) & 0x7F;
 
@@ -68,23 +70,14 @@ Float_components from_IBM(
 
     // We need to find how much we need to shift frac to have it left justified.
     //
-    // In the IBM format, the leading 1 of the fraction is moved as far right as
+    // In the IBM format, the leading 1 of the fraction is moved as far left as
     // possible. However, since it is using a base 16 exponent, up to 3 leading
-    // bits of the fraction can be zero.
+    // bits of the fraction can be zero, and more if it isn't normalized.
     // We therefore, need to shift it left by 8 bits, plus those leading zeros.
-    //
-    // We use a sneaky trick here: we use the 3 rightmost bits of the IBM
-    // fraction as a lookup for a table listing the offsets. Interpreted as an
-    // integer, these have the values:
-    //  000 -> 0  ---> needs offset of 3
-    //  001 -> 1  ---> needs offset of 2
-    //  010 -> 2  ---> needs offset of 1
-    //  011 -> 3  ---> needs offset of 1
-    // and so on.
-    //
-    const uint32_t offsets[]         = {3, 2, 1, 1, 0, 0, 0, 0};
-    const uint32_t leading_frac_bits = frac >> 21;
-    const int32_t shift              = offsets[leading_frac_bits];
+    int32_t shift = 0;
+    while (((frac << shift) & 0x00800000) == 0) {
+        shift++;
+    }
 
     const uint32_t shifted_frac = frac << (8 + shift);
 
@@ -188,7 +181,8 @@ float to_float(Float_components components)
     // Now we apply the IEEE bias to the exponent.
     // The IEEE bias is 127. We subtract an extra 1 to account for the implicit
     // 1 in the significand.
-    exp = exp + 127 - 1;
+    // Zero has no leading 1, so its exponent means nothing.
+    exp = (frac != 0 ? exp + 127 - 1 : 0);
 
 
     // Denormalized numbers
@@ -219,8 +213,11 @@ float to_float(Float_components components)
         // denorm numbers get an extra shift of 1, because they're in the
         // form 0.bbbb... rather than 1.bbbb... for regular numbers.
 
-        frac = rshift_with_rounding(frac, -exp + 1);
-        exp  = 0;
+        // frac is 24 bits wide, so shifting by 25 leaves nothing to round up.
+        frac = rshift_with_rounding(frac, std::min(-exp + 1, 25));
+
+        // Rounding up may give the smallest normalized number.
+        exp = (frac >> 23) & 0x01;
     }
 
     // Overflow
-- 
2.43.0


From 94dd6664d245e361b5d2c79af62edce695c4c06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:06 +0000
Subject: [PATCH 09/67] fix: keep the most significant digits when values
 sharing a scale do not all fit

---
 src/segy_utils.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/segy_utils.cc b/src/segy_utils.cc
index a501e12..e072514 100644
--- a/src/segy_utils.cc
+++ b/src/segy_utils.cc
@@ -7,6 +7,9 @@
 #include "ExSeisDat/PIOL/segy_utils.hh"
 #include "ExSeisDat/utils/encoding/number_encoding.hh"
 
+#include <cmath>
+#include <limits>
+
 using namespace exseis::utils;
 
 namespace exseis {
@@ -103,6 +106,21 @@ void insertParam(
             }
         }
 
+        // Every value sharing a scale must fit at that scale, otherwise a
+        // coarser one is needed to keep the most significant digits.
+        const auto fits = [](exseis::utils::Floating_point val) {
+            return std::round(val) >= std::numeric_limits<int32_t>::min()
+                   && std::round(val) <= std::numeric_limits<int32_t>::max();
+        };
+        for (const auto entry : rule) {
+            int16_t& s     = scal[static_cast<Tr>(entry->scalLoc)];
+            const auto val = prm->f[(i + skip) * r->numFloat + entry->num];
+
+            while (s < 10000 && !fits(val / parse_scalar(s))) {
+                s = (s < -10 ? s / 10 : (s < 1 ? 1 : s * 10));
+            }
+        }
+
         // Finish off the floats. Floats are inherently annoying in SEG-Y
         for (const auto& s : scal) {
             const auto be = to_big_endian(s.second);
-- 
2.43.0


From a6d98c878cec4ae165266f2af6f25e9ab0b17f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:20 +0000
Subject: [PATCH 10/67] fix: gain of muted windows, mean absolute value,
 two-sample medians and single-sample windows

---
 src/utils/signal_processing/Gain_function.cc | 25 ++++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/utils/signal_processing/Gain_function.cc b/src/utils/signal_processing/Gain_function.cc
index 9093a86..623180e 100644
--- a/src/utils/signal_processing/Gain_function.cc
+++ b/src/utils/signal_processing/Gain_function.cc
@@ -27,7 +27,7 @@ Trace_value rectangular_RMS_gain(
     for (size_t j = 0; j < window_size; j++) {
         amp += signal[j] * signal[j];
     }
-    assert(amp != 0);
+    if (amp == 0) return 1;
 
     const auto non_zero = [](Trace_value i) { return i != 0; };
     const size_t num    = std::count_if(signal, &signal[window_size], non_zero);
@@ -101,7 +101,9 @@ Trace_value triangular_RMS_gain(
     // window_center to window_size - 1.
     const size_t right_width = (window_size - 1) - window_center;
 
-    const Trace_value half_width = std::max(left_width, right_width);
+    // The window of a single element has no width
+    const Trace_value half_width =
+      std::max<size_t>({left_width, right_width, 1});
 
     Trace_value amp = 0;
     for (size_t j = 0; j < window_size; j++) {
@@ -118,7 +120,7 @@ Trace_value triangular_RMS_gain(
 
         amp += scaled_signal * scaled_signal;
     }
-    assert(amp != 0);
+    if (amp == 0) return 1;
 
     const auto non_zero = [](Trace_value i) { return i != 0; };
     const size_t num    = std::count_if(signal, &signal[window_size], non_zero);
@@ -145,14 +147,15 @@ Trace_value mean_abs_gain(
 {
     assert(window_size > 0);
 
-    const Trace_value amp =
-      std::accumulate(signal, signal + window_size, Trace_value(0));
-    assert(amp != 0);
+    const Trace_value amp = std::accumulate(
+      signal, signal + window_size, Trace_value(0),
+      [](Trace_value sum, Trace_value i) { return sum + std::abs(i); });
+    if (amp == 0) return 1;
 
     const auto non_zero = [](Trace_value i) { return i != Trace_value(0); };
     const size_t num    = std::count_if(signal, &signal[window_size], non_zero);
 
-    return target_amplitude / (std::abs(amp) / std::max<size_t>(1, num));
+    return target_amplitude / (amp / std::max<size_t>(1, num));
 }
 
 extern "C" Trace_value exseis_mean_abs_gain(
@@ -177,14 +180,16 @@ Trace_value median_gain(
 
     if (window_size % 2 == 0) {
         const auto amp =
-          ((signalTmp[window_size / 2] + signalTmp[window_size / 2 + 1]) / 2);
-        assert(amp != 0);
+          ((signalTmp[window_size / 2]
+            + signalTmp[std::min(window_size / 2 + 1, window_size - 1)])
+           / 2);
+        if (amp == 0) return 1;
 
         return target_amplitude / amp;
     }
     else {
         const auto amp = signalTmp[window_size / 2];
-        assert(amp != 0);
+        if (amp == 0) return 1;
 
         return target_amplitude / amp;
     }
-- 
2.43.0


From 27b9ee486aa20a2a0eef99dbdf148facea2deaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:20 +0000
Subject: [PATCH 11/67] fix: leave an entirely muted signal as it is when
 tapering

---
 src/utils/signal_processing/taper.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/signal_processing/taper.cc b/src/utils/signal_processing/taper.cc
index 72fd85c..fb55a16 100644
--- a/src/utils/signal_processing/taper.cc
+++ b/src/utils/signal_processing/taper.cc
@@ -20,7 +20,10 @@ void taper(
   size_t left_taper_size,
   size_t right_taper_size)
 {
-    assert(signal_size > left_taper_size && signal_size > right_taper_size);
+    // There is nothing to weight in an empty signal
+    if (signal_size == 0) return;
+
+    assert(signal_size >= left_taper_size && signal_size >= right_taper_size);
 
     // Drop muted trace region at the start, if it's there, and call this
     // function again for the truncated region.
@@ -31,8 +34,9 @@ void taper(
 
         auto* truncated_signal =
           std::find_if(signal, signal + signal_size, non_zero);
-        assert(truncated_signal[0] != 0);
 
+        // The whole signal is muted
+        if (truncated_signal == signal + signal_size) return;
 
         // Find the new sizes
         const auto truncated_signal_size =
-- 
2.43.0


From 0fb00e79f41302fabeffcb8878e3758141d8514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:20 +0000
Subject: [PATCH 12/67] fix: map characters without a counterpart to the
 substitute character

---
 src/utils/encoding/character_encoding.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/encoding/character_encoding.cc b/src/utils/encoding/character_encoding.cc
index a9afe29..92ab880 100644
--- a/src/utils/encoding/character_encoding.cc
+++ b/src/utils/encoding/character_encoding.cc
@@ -185,7 +185,9 @@ unsigned char to_ASCII_from_EBCDIC(unsigned char ebcdic_char)
       std::begin(ebcdic_sorted_array), std::end(ebcdic_sorted_array),
       ebcdic_char, compare_ebcdic);
 
-    if (ebcdic_char_it == std::end(ebcdic_sorted_array)) {
+    if (
+      ebcdic_char_it == std::end(ebcdic_sorted_array)
+      || ebcdic_char_it->ebcdic != ebcdic_char) {
         return char_sub.ascii;
     }
     return ebcdic_char_it->ascii;
@@ -203,7 +205,9 @@ unsigned char to_EBCDIC_from_ASCII(unsigned char ascii_char)
       std::begin(ascii_sorted_array), std::end(ascii_sorted_array), ascii_char,
       compare_ascii);
 
-    if (ascii_char_it == std::end(ascii_sorted_array)) {
+    if (
+      ascii_char_it == std::end(ascii_sorted_array)
+      || ascii_char_it->ascii != ascii_char) {
         return char_sub.ebcdic;
     }
     return ascii_char_it->ebcdic;
-- 
2.43.0


From 0ac21586d3b9f21a3508ca6cd9925e027a318aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:20 +0000
Subject: [PATCH 13/67] fix: asking for a quantity a rule does not have no
 longer breaks the rule

---
 include/ExSeisDat/PIOL/param_utils.hh | 7 +++++++
 src/Rule.cc                           | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/ExSeisDat/PIOL/param_utils.hh b/include/ExSeisDat/PIOL/param_utils.hh
index aa9a4cd..cfba610 100644
--- a/include/ExSeisDat/PIOL/param_utils.hh
+++ b/include/ExSeisDat/PIOL/param_utils.hh
@@ -30,6 +30,10 @@ T getPrm(size_t i, Meta entry, const Param* prm)
 {
     Rule* r       = prm->r.get();
     RuleEntry* id = r->getEntry(entry);
+    if (id == nullptr) {
+        return T(0);
+    }
+
     switch (id->type()) {
         case RuleEntry::MdType::Float:
             return T(prm->f[r->numFloat * i + id->num]);
@@ -63,6 +67,9 @@ void setPrm(size_t i, Meta entry, T ret, Param* prm)
 {
     Rule* r       = prm->r.get();
     RuleEntry* id = r->getEntry(entry);
+    if (id == nullptr) {
+        return;
+    }
 
     switch (id->type()) {
         case RuleEntry::MdType::Float:
diff --git a/src/Rule.cc b/src/Rule.cc
index ad9ac23..add1011 100644
--- a/src/Rule.cc
+++ b/src/Rule.cc
@@ -357,7 +357,9 @@ void Rule::rmRule(Meta m)
 
 RuleEntry* Rule::getEntry(Meta entry)
 {
-    return translate[entry];
+    // Asking for an entry does not add it
+    const auto iter = translate.find(entry);
+    return (iter != translate.end() ? iter->second : nullptr);
 }
 
 size_t Rule::memUsage(void) const
-- 
2.43.0


From 15e7911048433474e2a85ddc4f3d5f785a796cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:16 +0000
Subject: [PATCH 14/67] fix: copying a trace's parameters onto themselves keeps
 them

---
 src/param_utils.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/param_utils.cc b/src/param_utils.cc
index c3c5625..3d19fde 100644
--- a/src/param_utils.cc
+++ b/src/param_utils.cc
@@ -18,6 +18,12 @@ void cpyPrm(const size_t j, const Param* src, const size_t k, Param* dst)
         return;
     }
 
+    // A trace copied onto itself keeps its values: there is nothing to do, and
+    // extracting its raw header would overwrite them.
+    if (src == dst && j == k) {
+        return;
+    }
+
     Rule* srule = src->r.get();
     Rule* drule = dst->r.get();
 
-- 
2.43.0


From b1d11439919fb397eb2f332f1a4c35fffc6e63e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:01 +0000
Subject: [PATCH 15/67] fix: exchange at least one object per step of the
 parallel sort

When some process held fewer than four objects the exchanged region was empty,
so nothing was ever exchanged and the result was only sorted locally.
---
 src/sort.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index c9a3a02..a8d2225 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -421,6 +421,19 @@ bool checkOrder(
 
 /**************************** Core Implementation *****************************/
 
+/*! The number of objects to exchange with each neighbouring process in a step
+ *  of the sort. It must be at least one, if every process has objects, or
+ *  nothing would ever be exchanged.
+ *  @param[in] piol The PIOL object.
+ *  @param[in] lnt  The number of local objects
+ *  @return Return the size of the region to send/receive.
+ */
+static size_t getRegionSz(ExSeisPIOL* piol, size_t lnt)
+{
+    const size_t min = piol->comm->min(lnt);
+    return (min != 0 ? std::max<size_t>(min / 4LU, 1LU) : 0LU);
+}
+
 /*! Wait on two requests to finish. The largest and smallest rank only wait on
  *  one request.
  *  @param[in] piol The PIOL object.
@@ -655,7 +668,7 @@ void sort(
 std::vector<size_t> sort(ExSeisPIOL* piol, std::vector<size_t> list)
 {
     const size_t lnt      = list.size();
-    const size_t regionSz = piol->comm->min(lnt) / 4LU;
+    const size_t regionSz = getRegionSz(piol, lnt);
     const size_t edge2 =
       (piol->comm->getRank() != piol->comm->getNumRank() - 1 ? regionSz : 0LU);
     const size_t offset = piol->comm->offset(lnt);
@@ -870,7 +883,7 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
     size_t lnt      = prm->size();
     size_t numRank  = piol->comm->getNumRank();
     size_t rank     = piol->comm->getRank();
-    size_t regionSz = piol->comm->min(lnt) / 4LU;
+    size_t regionSz = getRegionSz(piol, lnt);
     size_t edge1    = (rank != 0 ? regionSz : 0LU);
     size_t edge2    = (rank != numRank - 1 ? regionSz : 0LU);
 
-- 
2.43.0


From 040a317db91561c8e19b98313c35ac2e1c0a8b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:24 +0000
Subject: [PATCH 16/67] fix: sort traces stably, so that a parallel sort with
 equal keys ends

---
 src/sort.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index a8d2225..d361812 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -889,9 +889,12 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
 
     std::vector<size_t> t1(lnt);
     std::iota(t1.begin(), t1.end(), 0LU);
-    std::sort(t1.begin(), t1.end(), [prm, comp](size_t& a, size_t& b) -> bool {
-        return comp(prm, a, b);
-    });
+    // The sorts are stable: otherwise traces which compare equal might be
+    // exchanged for ever.
+    std::stable_sort(
+      t1.begin(), t1.end(), [prm, comp](size_t a, size_t b) -> bool {
+          return comp(prm, a, b);
+      });
 
     Param temp1(prm->r, lnt + edge2);
     Param temp2(temp1.r, temp1.size());
@@ -909,9 +912,9 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
         {
             std::vector<size_t> t1(temp1.size() - edge1);
             std::iota(t1.begin(), t1.end(), edge1);
-            std::sort(
+            std::stable_sort(
               t1.begin(), t1.end(),
-              [&temp1, comp](size_t& a, size_t& b) -> bool {
+              [&temp1, comp](size_t a, size_t b) -> bool {
                   return comp(&temp1, a, b);
               });
 
@@ -929,9 +932,9 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
         {
             std::vector<size_t> t1(temp1.size() - edge2);
             std::iota(t1.begin(), t1.end(), 0);
-            std::sort(
+            std::stable_sort(
               t1.begin(), t1.end(),
-              [&temp1, comp](size_t& a, size_t& b) -> bool {
+              [&temp1, comp](size_t a, size_t b) -> bool {
                   return comp(&temp1, a, b);
               });
 
-- 
2.43.0


From 5a1ae43ff9c6988e426262935ddd23991b9ea546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:38 +0000
Subject: [PATCH 17/67] fix: exchange the raw headers of traces when sorting
 parameters in parallel

---
 src/sort.cc | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index d361812..544ec2b 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -719,8 +719,8 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
     Param rprm(prm->r, regionSz);
 
     size_t rank = piol->comm->getRank();
-    std::vector<MPI_Request> rsnd(4);
-    std::vector<MPI_Request> rrcv(4);
+    std::vector<MPI_Request> rsnd(5);
+    std::vector<MPI_Request> rrcv(5);
 
     // Lambda for wrapping an MPI call with logging.
     auto log_on_error = [&piol](auto mpi_function, std::string function_name) {
@@ -756,6 +756,10 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(MPI_Irecv, "Sort right size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 0,
           MPI_COMM_WORLD, &rrcv[3]);
+
+        log_on_error(MPI_Irecv, "Sort right header MPI_Irecv")(
+          rprm.c.data(), rprm.c.size(), MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD,
+          &rrcv[4]);
     }
 
     if (rank != piol->comm->getNumRank() - 1) {
@@ -781,6 +785,10 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(MPI_Isend, "Sort right size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 0,
           MPI_COMM_WORLD, &rsnd[3]);
+
+        log_on_error(MPI_Isend, "Sort right header MPI_Isend")(
+          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank + 1, 0, MPI_COMM_WORLD,
+          &rsnd[4]);
     }
 
     Wait(piol, rsnd, rrcv);
@@ -805,8 +813,8 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
     Param rprm(prm->r, regionSz);
 
     size_t rank = piol->comm->getRank();
-    std::vector<MPI_Request> rsnd(4);
-    std::vector<MPI_Request> rrcv(4);
+    std::vector<MPI_Request> rsnd(5);
+    std::vector<MPI_Request> rrcv(5);
 
     // Lambda for wrapping an MPI call with logging.
     auto log_on_error = [&piol](auto mpi_function, std::string function_name) {
@@ -844,6 +852,10 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(MPI_Isend, "Sort left size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 1,
           MPI_COMM_WORLD, &rsnd[3]);
+
+        log_on_error(MPI_Isend, "Sort left header MPI_Isend")(
+          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD,
+          &rsnd[4]);
     }
 
     if (rank != piol->comm->getNumRank() - 1) {
@@ -863,6 +875,10 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(MPI_Irecv, "Sort left size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 1,
           MPI_COMM_WORLD, &rrcv[3]);
+
+        log_on_error(MPI_Irecv, "Sort left header MPI_Irecv")(
+          rprm.c.data(), rprm.c.size(), MPI_CHAR, rank + 1, 1, MPI_COMM_WORLD,
+          &rrcv[4]);
     }
 
     Wait(piol, rrcv, rsnd);
-- 
2.43.0


From 9280eb7b664e26558724cd10e5b1481178fb20be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:03 +0000
Subject: [PATCH 18/67] fix: order traces by the signed offset recorded in
 their headers

The offset was read as an unsigned number, so negative ones compared as huge.
---
 src/sort.cc | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index 544ec2b..8c6a72d 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -148,7 +148,8 @@ static bool lessSrcOff(const Param* prm, const size_t i, const size_t j)
               i, PIOL_META_yRcv, prm);
             auto off1 =
               (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                         param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                 i, PIOL_META_Offset, prm));
 
             auto e2rx = param_utils::getPrm<exseis::utils::Floating_point>(
               j, PIOL_META_xRcv, prm);
@@ -156,7 +157,8 @@ static bool lessSrcOff(const Param* prm, const size_t i, const size_t j)
               j, PIOL_META_yRcv, prm);
             auto off2 =
               (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                         param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                 j, PIOL_META_Offset, prm));
 
             return (
               off1 < off2
@@ -208,7 +210,8 @@ static bool lessRcvOff(const Param* prm, const size_t i, const size_t j)
               i, PIOL_META_ySrc, prm);
             auto off1 =
               (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                         param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                 i, PIOL_META_Offset, prm));
 
             auto e2sx = param_utils::getPrm<exseis::utils::Floating_point>(
               j, PIOL_META_xSrc, prm);
@@ -216,7 +219,8 @@ static bool lessRcvOff(const Param* prm, const size_t i, const size_t j)
               j, PIOL_META_ySrc, prm);
             auto off2 =
               (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                         param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                 j, PIOL_META_Offset, prm));
 
             return (
               off1 < off2
@@ -279,10 +283,12 @@ static bool lessLineOff(const Param* prm, const size_t i, const size_t j)
 
             auto off1 =
               (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                         param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                 i, PIOL_META_Offset, prm));
             auto off2 =
               (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                         param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                 j, PIOL_META_Offset, prm));
             return (
               off1 < off2
               || (off1 == off2
@@ -319,7 +325,8 @@ static bool lessOffLine(const Param* prm, const size_t i, const size_t j)
       i, PIOL_META_yRcv, prm);
     auto off1 =
       (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                 param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                 param_utils::getPrm<exseis::utils::Integer>(
+                 i, PIOL_META_Offset, prm));
 
     auto e2sx = param_utils::getPrm<exseis::utils::Floating_point>(
       j, PIOL_META_xSrc, prm);
@@ -331,7 +338,8 @@ static bool lessOffLine(const Param* prm, const size_t i, const size_t j)
       j, PIOL_META_yRcv, prm);
     auto off2 =
       (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                 param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                 param_utils::getPrm<exseis::utils::Integer>(
+                 j, PIOL_META_Offset, prm));
 
     if (off1 < off2) {
         return true;
-- 
2.43.0


From 3c44bcbc2d2068f5f38defaf512342ce4562103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:56 +0000
Subject: [PATCH 19/67] fix: allocate space for every element of an
 MPI_Distributed_vector

The number of elements was used as the number of bytes.
---
 include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
index f9b88c3..45a4ebd 100644
--- a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
+++ b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
@@ -88,7 +88,8 @@ MPI_Distributed_vector<T>::Model::Model(MPI_Aint global_size, MPI_Comm comm) :
       block_decomposition(global_size, num_ranks, rank);
     const size_t local_size = decomposition.local_size;
 
-    MPI_Win_allocate(local_size, sizeof(T), MPI_INFO_NULL, comm, &data, &win);
+    MPI_Win_allocate(
+      local_size * sizeof(T), sizeof(T), MPI_INFO_NULL, comm, &data, &win);
 }
 
 template<typename T>
-- 
2.43.0


From 559501711b69eb376cf9913dfa1bfab6c928c97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:00 +0000
Subject: [PATCH 20/67] fix: reject the index just past the end of an
 MPI_Distributed_vector

---
 include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
index 45a4ebd..228ca01 100644
--- a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
+++ b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
@@ -102,7 +102,7 @@ MPI_Distributed_vector<T>::Model::~Model()
 template<typename T>
 void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
 {
-    if (i > global_size) {
+    if (i >= global_size) {
         return;
     }
 
@@ -136,7 +136,7 @@ void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
 template<typename T>
 T MPI_Distributed_vector<T>::Model::get(size_t i) const
 {
-    if (i > global_size) {
+    if (i >= global_size) {
         return T();
     }
 
-- 
2.43.0


From 38f722b7fb4a061e9d8d75034755df481f9eb205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:00 +0000
Subject: [PATCH 21/67] fix: let process 0 use an MPI_Distributed_vector when
 assertions are on

---
 include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
index 228ca01..772527b 100644
--- a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
+++ b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
@@ -116,7 +116,7 @@ void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
       block_decomposition_location(global_size, num_ranks, i);
 
     // Set the value locally or remotely.
-    assert(rank > 0);
+    assert(rank >= 0);
     if (location.rank == static_cast<size_t>(rank)) {
         data[location.local_index] = val;
     }
@@ -149,7 +149,7 @@ T MPI_Distributed_vector<T>::Model::get(size_t i) const
     auto location = block_decomposition_location(global_size, num_ranks, i);
 
     // Get the value locally or remotely.
-    assert(rank > 0);
+    assert(rank >= 0);
     if (location.rank == static_cast<size_t>(rank)) {
         return data[location.local_index];
     }
-- 
2.43.0


From b9d1e7f86cfb57c08815e744bf0d8c57aae7ef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 22/67] fix: count gathers correctly whatever processes they
 span

Processes without traces, gathers spanning more than two processes and the last
process (which read past the gathered arrays) were not handled.
---
 src/gather.cc | 68 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/src/gather.cc b/src/gather.cc
index 291a75c..acd0264 100644
--- a/src/gather.cc
+++ b/src/gather.cc
@@ -31,49 +31,61 @@ static utils::Distributed_vector<Gather_info> getGathers(
     size_t numRank = piol->comm->getNumRank();
     std::vector<Gather_info> lline;
 
-    exseis::utils::Integer ill =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_il, prm);
-    exseis::utils::Integer xll =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_xl, prm);
-    lline.push_back({1LU, ill, xll});
-
-    for (size_t i = 1; i < prm->size(); i++) {
+    for (size_t i = 0; i < prm->size(); i++) {
         exseis::utils::Integer il =
           param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_il, prm);
         exseis::utils::Integer xl =
           param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_xl, prm);
 
-        if (il != ill || xl != xll) {
+        if (
+          lline.empty() || il != lline.back().inline_
+          || xl != lline.back().crossline) {
             lline.push_back({0LU, il, xl});
-            ill = il;
-            xll = xl;
         }
         lline.back().num_traces += 1;
     }
 
-    auto trcnum = piol->comm->gather<size_t>(lline.front().num_traces);
-    auto ilb    = piol->comm->gather<size_t>(lline.back().inline_);
-    auto xlb    = piol->comm->gather<size_t>(lline.back().crossline);
-    auto ilf    = piol->comm->gather<size_t>(lline.front().inline_);
-    auto xlf    = piol->comm->gather<size_t>(lline.front().crossline);
+    // A process without traces has no gathers and takes no part in any.
+    const Gather_info front = (lline.empty() ? Gather_info{} : lline.front());
+    const Gather_info back  = (lline.empty() ? Gather_info{} : lline.back());
 
-    size_t start = 0;
-    if (
-      rank != 0 && ilb[rank - 1LU] == ilf[rank]
-      && xlb[rank - 1LU] == xlf[rank]) {
+    auto lines  = piol->comm->gather<size_t>(lline.size());
+    auto trcnum = piol->comm->gather<size_t>(front.num_traces);
+    auto ilb    = piol->comm->gather<size_t>(back.inline_);
+    auto xlb    = piol->comm->gather<size_t>(back.crossline);
+    auto ilf    = piol->comm->gather<size_t>(front.inline_);
+    auto xlf    = piol->comm->gather<size_t>(front.crossline);
 
-        start = 1;
+    // Does the last gather of process i continue as the first of process j?
+    auto continues = [&](size_t i, size_t j) -> bool {
+        return ilb[i] == ilf[j] && xlb[i] == xlf[j];
+    };
+
+    // The first local gather belongs to a previous process if it continues
+    // from the previous process with traces.
+    size_t start = 0;
+    if (!lline.empty()) {
+        for (size_t i = rank; i-- > 0;) {
+            if (lines[i] != 0) {
+                start = (continues(i, rank) ? 1 : 0);
+                break;
+            }
+        }
     }
 
+    // The last local gather extends over the following processes up to and
+    // including the first which also has some other gather.
     if (start < lline.size()) {
-        if (ilf[rank + 1LU] == ilb[rank] && xlf[rank + 1LU] == xlb[rank]) {
-            for (size_t i = rank + 1LU; i < numRank; i++) {
-                if (ilb[rank] == ilf[i] && xlb[rank] == xlf[i]) {
-                    lline.back().num_traces += trcnum[i];
-                }
-                else {
-                    break;
-                }
+        for (size_t i = rank + 1LU; i < numRank; i++) {
+            if (lines[i] == 0) {
+                continue;
+            }
+            if (!continues(rank, i)) {
+                break;
+            }
+            lline.back().num_traces += trcnum[i];
+            if (lines[i] > 1) {
+                break;
             }
         }
     }
-- 
2.43.0


From 795258ea00840ab08a7cd6a90ffc9b97b9b1166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 23/67] fix: complete the list of gathers before it is returned

---
 src/gather.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gather.cc b/src/gather.cc
index acd0264..dc15254 100644
--- a/src/gather.cc
+++ b/src/gather.cc
@@ -100,6 +100,9 @@ static utils::Distributed_vector<Gather_info> getGathers(
         line.set(i + offset, lline[i + start]);
     }
 
+    // Every process must be done before any other reads the result.
+    piol->comm->barrier();
+
     return std::move(line);
 }
 
-- 
2.43.0


From d333cc334e46321b02c81966386883fb8d446dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:15 +0000
Subject: [PATCH 24/67] verif: allow small blocks in Set::startSingle (guarded
 by EXSEISDAT_VERIF_HOOKS)

---
 src/Flow/Set.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 3681fb3..d08611f 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -10,6 +10,7 @@
 #include "ExSeisDat/PIOL/param_utils.hh"
 #include "ExSeisDat/utils/signal_processing/AGC.h"
 
+#include <cstdlib>
 #include <glob.h>
 #include <numeric>
 #include <regex>
@@ -200,7 +201,13 @@ std::vector<std::string> Set::startSingle(
         out->writeInc(inc);
         out->writeText(outmsg);
 
-        const size_t memlim = 1024LU * 1024LU * 1024LU;
+        size_t memlim = 1024LU * 1024LU * 1024LU;
+#ifdef EXSEISDAT_VERIF_HOOKS
+        // Verification only: blocks of a few traces can be asked for
+        if (std::getenv("EXSEISDAT_VERIF_MEMLIM") != nullptr) {
+            memlim = std::stoull(std::getenv("EXSEISDAT_VERIF_MEMLIM"));
+        }
+#endif
         size_t max =
           memlim
           / (5LU * sizeof(size_t) + SEGY_utils::getDOSz(ns)
-- 
2.43.0


From 6dae839f93410316ce648a0e39d9984f1b608121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 25/67] fix: do not overwrite the output of a set when the set
 is destroyed

---
 src/Flow/Set.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index d08611f..c837215 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -518,6 +518,9 @@ std::vector<std::string> Set::output(std::string oname)
     std::vector<std::string> out = calcFunc(func.begin(), func.end());
     func.clear();
 
+    // The destructor must not output the set again
+    outfix.clear();
+
     return out;
 }
 
-- 
2.43.0


From 1647764df50a378626ac69beba901ea39f8b6082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:19 +0000
Subject: [PATCH 26/67] fix: give every group of files in a set an output file
 of its own

---
 src/Flow/Set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index c837215..0a0ee73 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -184,7 +184,7 @@ std::vector<std::string> Set::startSingle(
         size_t ns                         = fQue[0]->ifc->readNs();
         exseis::utils::Floating_point inc = fQue[0]->ifc->readInc();
 
-        if (fQue.size() == 1) {
+        if (fmap.size() == 1 && fQue.size() == 1) {
             name = outfix + ".segy";
         }
         else {
-- 
2.43.0


From 37105603cadeeb343928c244b89a9bf45b64280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:23 +0000
Subject: [PATCH 27/67] fix: do not sort a set using parameters cached for
 another sort

---
 include/ExSeisDat/Flow/CacheElem.hh |  3 +++
 src/Flow/Cache.cc                   | 34 ++++++++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/include/ExSeisDat/Flow/CacheElem.hh b/include/ExSeisDat/Flow/CacheElem.hh
index 20fa245..897cf8b 100644
--- a/include/ExSeisDat/Flow/CacheElem.hh
+++ b/include/ExSeisDat/Flow/CacheElem.hh
@@ -24,6 +24,9 @@ struct CacheElem {
     /// A deque of unique pointers to file descriptors
     FileDeque desc;
 
+    /// The rule the cached parameters were read with
+    std::shared_ptr<exseis::PIOL::Rule> rule;
+
     /// The cached data
     std::shared_ptr<TraceBlock> block;
 
diff --git a/src/Flow/Cache.cc b/src/Flow/Cache.cc
index 7ea3d87..0bea21a 100644
--- a/src/Flow/Cache.cc
+++ b/src/Flow/Cache.cc
@@ -18,6 +18,34 @@ using namespace exseis::PIOL;
 namespace exseis {
 namespace Flow {
 
+namespace {
+
+/*! Check that two rules store the same quantities at the same places.
+ *  @param[in] a The first rule
+ *  @param[in] b The second rule
+ *  @return Return true if they do.
+ */
+bool same_rule(const Rule* a, const Rule* b)
+{
+    if (a == b) {
+        return true;
+    }
+    if (
+      a == nullptr || b == nullptr
+      || a->translate.size() != b->translate.size()) {
+        return false;
+    }
+    return std::all_of(
+      a->translate.begin(), a->translate.end(), [b](const auto& entry) {
+          auto other = b->translate.find(entry.first);
+          return other != b->translate.end()
+                 && other->second->type() == entry.second->type()
+                 && other->second->loc == entry.second->loc;
+      });
+}
+
+}  // namespace
+
 // TODO: Generalise this for parameters and traces
 std::shared_ptr<TraceBlock> Cache::getCache(
   std::shared_ptr<Rule> rule, FileDeque& desc, bool, bool)
@@ -25,7 +53,10 @@ std::shared_ptr<TraceBlock> Cache::getCache(
     auto it = std::find_if(
       cache.begin(), cache.end(),
       [desc](const CacheElem& elem) -> bool { return elem.desc == desc; });
-    if (it == cache.end() || !it->block || !it->block->prm) {
+    // Parameters cached for another rule may not hold what is needed
+    if (
+      it == cache.end() || !it->block || !it->block->prm
+      || !same_rule(it->rule.get(), rule.get())) {
         size_t lnt = 0LU;
         size_t nt  = 0LU;
         for (auto& f : desc) {
@@ -64,6 +95,7 @@ std::shared_ptr<TraceBlock> Cache::getCache(
             it->block->prm = std::move(prm);
         }
 
+        it->rule       = rule;
         it->block->nt  = nt;
         it->block->ns  = desc[0]->ifc->readNs();
         it->block->inc = desc[0]->ifc->readInc();
-- 
2.43.0


From 71c62f890d7e97039fd16ab73b6d0f87382d7040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:23 +0000
Subject: [PATCH 28/67] fix: number the traces of a set of several files
 uniquely when sorting

---
 src/Flow/Cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Cache.cc b/src/Flow/Cache.cc
index 0bea21a..a54f978 100644
--- a/src/Flow/Cache.cc
+++ b/src/Flow/Cache.cc
@@ -75,7 +75,7 @@ std::shared_ptr<TraceBlock> Cache::getCache(
               f->ilst.size(), f->ilst.data(), prm.get(), loff);
             for (size_t i = 0LU; i < f->ilst.size(); i++) {
                 param_utils::setPrm(
-                  loff + i, PIOL_META_gtn, off + loff + f->ilst[i], prm.get());
+                  loff + i, PIOL_META_gtn, off + loff + i, prm.get());
                 param_utils::setPrm(
                   loff + i, PIOL_META_ltn, f->ilst[i] * desc.size() + c,
                   prm.get());
-- 
2.43.0


From c22b4f1d27d3022ac1f6bfb48501c1336772efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:23 +0000
Subject: [PATCH 29/67] fix: do not lose a sort, or the names of the output
 files, in a longer workflow

---
 src/Flow/Set.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 0a0ee73..e0e8df0 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -500,7 +500,7 @@ std::vector<std::string> Set::calcFunc(
             ++fCurr;
         }
 
-        calcFunc(fCurr, fEnd);
+        return calcFunc(fCurr, fEnd);
     }
 
     return std::vector<std::string>{};
@@ -597,7 +597,15 @@ void Set::sort(std::shared_ptr<Rule> r, CompareP sortFunc)
     OpOpt opt = {FuncOpt::NeedMeta, FuncOpt::ModMetaVal, FuncOpt::DepMetaVal,
                  FuncOpt::SubSetOnly};
 
-    func.push_back(std::make_shared<Op<InPlaceMod>>(
+    // Operations on single traces do not depend on the order of the traces and
+    // end with the output, so the sort goes in front of them
+    auto pos = func.end();
+    while (pos != func.begin()
+           && (*std::prev(pos))->opt.check(FuncOpt::SingleTrace)) {
+        --pos;
+    }
+
+    func.insert(pos, std::make_shared<Op<InPlaceMod>>(
       opt, r, nullptr, [this, sortFunc](TraceBlock* in) -> std::vector<size_t> {
           // TODO: It will eventually be necessary to support this use case.
           if (piol->comm->min(in->prm->size()) < 3LU) {
-- 
2.43.0


From 967fc1cfe812b2437cefaa979d2cd6a23248ead8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:23 +0000
Subject: [PATCH 30/67] fix: keep the order of a set that is too small to be
 sorted

---
 src/Flow/Set.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index e0e8df0..23cefb6 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -426,8 +426,17 @@ Set::FuncLst::iterator Set::calcFuncS(
     std::vector<size_t> trlist =
       dynamic_cast<Op<InPlaceMod>*>(fCurr->get())->func(block.get());
 
+    // An operation that could not be done leaves the order as it is
+    size_t lnt = 0;
+    for (auto& f : fQue) {
+        lnt += f->olst.size();
+    }
+
     size_t j = 0;
     for (auto& f : fQue) {
+        if (trlist.size() != lnt) {
+            break;
+        }
         std::copy(&trlist[j], &trlist[j + f->olst.size()], f->olst.begin());
         j += f->olst.size();
     }
-- 
2.43.0


From 70271094baed30fc272265f94706198d3d547bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:23 +0000
Subject: [PATCH 31/67] fix: keep the complete trace headers when sorting a set

---
 src/Flow/Set.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 23cefb6..f5e4b1f 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -597,7 +597,10 @@ void Set::sort(CompareP sortFunc)
 
     // TODO: This is not the ideal mechanism, hack for now. See the note in the
     //       calcFunc for single traces
-    rule->addRule(*r);
+    // Complete headers are not to be changed
+    if (rule->translate.count(PIOL_META_COPY) == 0) {
+        rule->addRule(*r);
+    }
     sort(r, sortFunc);
 }
 
-- 
2.43.0


From 9f1b428d2e1b43c15a859814300e08cf58a7345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:23 +0000
Subject: [PATCH 32/67] fix: keep the text requested for the output of a set
 when files are added

---
 src/Flow/Set.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index f5e4b1f..cc98fd3 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -87,7 +87,9 @@ void Set::add(std::unique_ptr<ReadInterface> in)
 
 void Set::add(std::string pattern)
 {
-    outmsg = "ExSeisPIOL: Set layer output\n";
+    if (outmsg.empty()) {
+        outmsg = "ExSeisPIOL: Set layer output\n";
+    }
     glob_t globs;
     int err = glob(pattern.c_str(), GLOB_TILDE | GLOB_MARK, NULL, &globs);
     if (err != 0) {
-- 
2.43.0


From 67614bece194e2b242fdf45fac382242e06c8b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:43 +0000
Subject: [PATCH 33/67] fix: find the maxima of sets with negative values or
 with empty files

---
 src/Flow/Set.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index cc98fd3..e68ad2d 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -540,9 +540,11 @@ void Set::getMinMax(
 {
     // TODO: This needs to be changed to be compatible with ExSeisFlow
     minmax[0].val = std::numeric_limits<exseis::utils::Floating_point>::max();
-    minmax[1].val = std::numeric_limits<exseis::utils::Floating_point>::min();
+    minmax[1].val =
+      std::numeric_limits<exseis::utils::Floating_point>::lowest();
     minmax[2].val = std::numeric_limits<exseis::utils::Floating_point>::max();
-    minmax[3].val = std::numeric_limits<exseis::utils::Floating_point>::min();
+    minmax[3].val =
+      std::numeric_limits<exseis::utils::Floating_point>::lowest();
     for (size_t i = 0; i < 4; i++) {
         minmax[i].num = std::numeric_limits<size_t>::max();
     }
@@ -568,7 +570,10 @@ void Set::getMinMax(
             {
                 auto& tmm = tminmax[2LU * i];
                 auto& mm  = minmax[2LU * i];
-                if (tmm.val == mm.val) {
+                if (tmm.num == std::numeric_limits<size_t>::max()) {
+                    // The file has no traces
+                }
+                else if (tmm.val == mm.val) {
                     mm.num = std::min(tmm.num, mm.num);
                 }
                 else if (tmm.val < mm.val) {
@@ -579,7 +584,10 @@ void Set::getMinMax(
             {
                 auto& tmm2 = tminmax[2LU * i + 1LU];
                 auto& mm2  = minmax[2LU * i + 1LU];
-                if (tmm2.val == mm2.val) {
+                if (tmm2.num == std::numeric_limits<size_t>::max()) {
+                    // The file has no traces
+                }
+                else if (tmm2.val == mm2.val) {
                     mm2.num = std::min(tmm2.num, mm2.num);
                 }
                 else if (tmm2.val > mm2.val) {
-- 
2.43.0


From 44185f2e671dd0dc7d38668a203bd09c61e3fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:44 +0000
Subject: [PATCH 34/67] fix: do not read past the end of short traces when
 padding them by replication

---
 src/temporalfilter.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index d9b75c9..2c924f2 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -311,8 +311,9 @@ FltrPad getPad(PadType type)
 
         case PadType::Replicate:
             return
-              [](exseis::utils::Trace_value* trc, size_t, size_t nw, size_t j) {
-                  return (j <= nw ? trc[0] : trc[nw]);
+              [](
+                exseis::utils::Trace_value* trc, size_t N, size_t nw, size_t j) {
+                  return (j < N ? trc[0] : trc[nw]);
               };
             break;
 
-- 
2.43.0


From f778aec4c7c757c9728edcf664869bf3e5e2ad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:49 +0000
Subject: [PATCH 35/67] fix: do not lose the first trace when planning the
 Fourier transforms of a filter

---
 src/temporalfilter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index 2c924f2..57df842 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -343,7 +343,7 @@ void filterFreq(
     std::vector<Complex_trace_value> frequency1(nss);
     fftwf_plan planFFT = fftwf_plan_dft_r2c_1d(
       nss, trcX, reinterpret_cast<fftwf_complex*>(frequency.data()),
-      FFTW_MEASURE);
+      FFTW_ESTIMATE);
     fftwf_execute(planFFT);
     fftwf_destroy_plan(planFFT);
 
@@ -365,7 +365,7 @@ void filterFreq(
 
     fftwf_plan planIFFT = fftwf_plan_dft_c2r_1d(
       nss, reinterpret_cast<fftwf_complex*>(frequency.data()), trcX,
-      FFTW_MEASURE);
+      FFTW_ESTIMATE);
     fftwf_execute(planIFFT);
     fftwf_destroy_plan(planIFFT);
 
-- 
2.43.0


From e91f12e63e15fa03e4e033cb687cb40854cd1cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 36/67] fix: temporal filter padding takes samples inside the
 trace only

---
 src/temporalfilter.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index 57df842..56cab6f 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -305,7 +305,7 @@ FltrPad getPad(PadType type)
             return [](
                      exseis::utils::Trace_value* trc, size_t N, size_t nw,
                      size_t j) {
-                return (j <= nw ? trc[N - j] : trc[2 * (nw + N) - j]);
+                return (j < N ? trc[N - j] : trc[2 * nw + N - j]);
             };
             break;
 
@@ -321,7 +321,7 @@ FltrPad getPad(PadType type)
             return [](
                      exseis::utils::Trace_value* trc, size_t N, size_t nw,
                      size_t j) {
-                return (j <= nw ? trc[nw - (N - j)] : trc[j - nw - N]);
+                return (j < N ? trc[nw - (N - j)] : trc[j - nw - 1 - N]);
             };
             break;
     }
@@ -420,10 +420,11 @@ void filterTime(
 {
     std::vector<exseis::utils::Trace_value> trcX(nw + 6LU * (numTail + 1LU));
 
-    for (size_t i = 0LU; i < 3LU * (numTail + 1LU); i++) {
-        trcX[i] = padding(trcOrgnl, 3LU * (numTail + 1LU), nw, i);
-        trcX[i + 3LU * numTail + nw] = padding(
-          trcOrgnl, 3LU * (numTail + 1LU), nw - 1LU, i + 3LU * numTail + nw);
+    const size_t numPad = 3LU * (numTail + 1LU);
+    for (size_t i = 0LU; i < numPad; i++) {
+        trcX[i] = padding(trcOrgnl, numPad, nw, i);
+        trcX[i + numPad + nw] =
+          padding(trcOrgnl, numPad, nw - 1LU, i + numPad + nw);
     }
 
     for (size_t i = 0; i < nw; i++) {
-- 
2.43.0


From 396700562e933969d9f25b2c253a58dc3e6fa8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 37/67] fix: WriteSEGY: all processes decide together whether a
 file is finalised

---
 src/WriteSEGY.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index 70752d3..453ea2a 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -54,8 +54,8 @@ WriteSEGY::WriteSEGY(
 
 WriteSEGY::~WriteSEGY(void)
 {
-    // TODO: On error this can be a source of a deadlock
-    if (!piol->log->isErr()) {
+    // Finalising the file is collective: it is done if no process had an error.
+    if (piol->comm->max(piol->log->isErr() ? 1LU : 0LU) == 0) {
         calcNt();
 
         if (state.resize) {
-- 
2.43.0


From 2f0f33e32a198944cf727acc866c36c5f6fcc0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:51 +0000
Subject: [PATCH 38/67] fix: ReadSEGY: all processes use the same file size
 when opening

---
 src/ReadSEGY.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 30a1fb7..297ed50 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -42,7 +42,10 @@ ReadSEGY::ReadSEGY(
     using namespace SEGY_utils;
 
     size_t hoSz = SEGY_utils::getHOSz();
-    size_t fsz  = obj->getFileSz();
+
+    // Reading the header is collective, so the processes have to agree on
+    // whether there is one, even if one of them failed to get the size.
+    size_t fsz = piol->comm->max(obj->getFileSz());
 
     // Read the global header data, if there is any.
     if (fsz >= hoSz) {
-- 
2.43.0


From 08ee241a0a577a9c316cf653726f2e85248e8814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:49 +0000
Subject: [PATCH 39/67] fix: ReadSEGY: all processes use the same number of
 samples when opening

---
 src/ReadSEGY.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 297ed50..416862c 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -60,6 +60,10 @@ ReadSEGY::ReadSEGY(
           header_buffer[SEGYFileHeaderByte::NumSample + 0],
           header_buffer[SEGYFileHeaderByte::NumSample + 1]);
 
+        // Which collective calls a read makes depends on ns, so it must be the
+        // same on all processes, even if one of them failed to get the header.
+        ns = piol->comm->max(ns);
+
         nt = SEGY_utils::getNt(fsz, ns);
 
         inc = incFactor
-- 
2.43.0


From 931c72d964fd4a7662bf67e6bf26e0186f1b6afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:37 +0000
Subject: [PATCH 40/67] fix: compute offsets over the PIOL's communicator

CommunicatorMPI::offset summed over MPI_COMM_WORLD, so a PIOL made for a part
of the processes waited for the others, or counted them.
---
 src/CommunicatorMPI.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/CommunicatorMPI.cc b/src/CommunicatorMPI.cc
index 6427fd7..0be63b6 100644
--- a/src/CommunicatorMPI.cc
+++ b/src/CommunicatorMPI.cc
@@ -226,8 +226,7 @@ size_t CommunicatorMPI::offset(size_t val)
 {
     size_t offset = 0LU;
     MPI_Exscan(
-      &val, &offset, 1LU, exseis::utils::MPI_type<size_t>(), MPI_SUM,
-      MPI_COMM_WORLD);
+      &val, &offset, 1LU, exseis::utils::MPI_type<size_t>(), MPI_SUM, comm);
     return (rank == 0 ? 0LU : offset);
 }
 
-- 
2.43.0


From ee1bf13583b77a23e4739bfb8f43fd32de2f7837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:37 +0000
Subject: [PATCH 41/67] fix: sort over the PIOL's communicator

The exchanges with the neighbours and the test for the end of the sort were
made on MPI_COMM_WORLD with ranks of the PIOL's communicator.
---
 src/sort.cc | 60 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index 8c6a72d..0e902b5 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -497,6 +497,8 @@ void Wait(
 template<class T>
 void sendRight(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
 {
+    const MPI_Comm comm = piol->comm->getComm();
+
     size_t rank = piol->comm->getRank();
     size_t cnt  = regionSz * sizeof(T);
 
@@ -506,7 +508,7 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
     // TODO: Move to the communication layer?
     if (rank) {
         int err = MPI_Irecv(
-          dat.data(), cnt, MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rrcv[0]);
+          dat.data(), cnt, MPI_CHAR, rank - 1, 1, comm, &rrcv[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -520,7 +522,7 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
     if (rank != piol->comm->getNumRank() - 1) {
         int err = MPI_Isend(
           &dat[dat.size() - regionSz], cnt, MPI_CHAR, rank + 1, 1,
-          MPI_COMM_WORLD, &rsnd[0]);
+          comm, &rsnd[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -545,6 +547,8 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
 template<class T>
 void sendLeft(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
 {
+    const MPI_Comm comm = piol->comm->getComm();
+
     size_t rank = piol->comm->getRank();
     size_t cnt  = regionSz * sizeof(T);
 
@@ -553,7 +557,7 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
 
     if (rank) {
         int err = MPI_Isend(
-          dat.data(), cnt, MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD, &rsnd[0]);
+          dat.data(), cnt, MPI_CHAR, rank - 1, 0, comm, &rsnd[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -567,7 +571,7 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
     if (rank != piol->comm->getNumRank() - 1) {
         int err = MPI_Irecv(
           &dat[dat.size() - regionSz], cnt, MPI_CHAR, rank + 1, 0,
-          MPI_COMM_WORLD, &rrcv[0]);
+          comm, &rrcv[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -648,7 +652,7 @@ void sort(
         int greduced = 1;
 
         int err = MPI_Allreduce(
-          &reduced, &greduced, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
+          &reduced, &greduced, 1, MPI_INT, MPI_SUM, piol->comm->getComm());
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -723,6 +727,8 @@ std::vector<size_t> sort(ExSeisPIOL* piol, std::vector<size_t> list)
  */
 void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
 {
+    const MPI_Comm comm = piol->comm->getComm();
+
     Param sprm(prm->r, regionSz);
     Param rprm(prm->r, regionSz);
 
@@ -751,22 +757,22 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Irecv, "Sort right exseis::utils::Floating_point MPI_Irecv")(
           rprm.f.data(), rprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD, &rrcv[0]);
+          MPI_CHAR, rank - 1, 0, comm, &rrcv[0]);
 
         log_on_error(MPI_Irecv, "Sort right exseis::utils::Integer MPI_Irecv")(
           rprm.i.data(), rprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD, &rrcv[1]);
+          MPI_CHAR, rank - 1, 0, comm, &rrcv[1]);
 
         log_on_error(MPI_Irecv, "Sort right short MPI_Irecv")(
           rprm.s.data(), rprm.s.size() * sizeof(short), MPI_CHAR, rank - 1, 0,
-          MPI_COMM_WORLD, &rrcv[2]);
+          comm, &rrcv[2]);
 
         log_on_error(MPI_Irecv, "Sort right size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 0,
-          MPI_COMM_WORLD, &rrcv[3]);
+          comm, &rrcv[3]);
 
         log_on_error(MPI_Irecv, "Sort right header MPI_Irecv")(
-          rprm.c.data(), rprm.c.size(), MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD,
+          rprm.c.data(), rprm.c.size(), MPI_CHAR, rank - 1, 0, comm,
           &rrcv[4]);
     }
 
@@ -780,22 +786,22 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Isend, "Sort right exseis::utils::Floating_point MPI_Isend")(
           sprm.f.data(), sprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank + 1, 0, MPI_COMM_WORLD, &rsnd[0]);
+          MPI_CHAR, rank + 1, 0, comm, &rsnd[0]);
 
         log_on_error(MPI_Isend, "Sort right exseis::utils::Integer MPI_Isend")(
           sprm.i.data(), sprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank + 1, 0, MPI_COMM_WORLD, &rsnd[1]);
+          MPI_CHAR, rank + 1, 0, comm, &rsnd[1]);
 
         log_on_error(MPI_Isend, "Sort right short MPI_Isend")(
           sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR, rank + 1, 0,
-          MPI_COMM_WORLD, &rsnd[2]);
+          comm, &rsnd[2]);
 
         log_on_error(MPI_Isend, "Sort right size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 0,
-          MPI_COMM_WORLD, &rsnd[3]);
+          comm, &rsnd[3]);
 
         log_on_error(MPI_Isend, "Sort right header MPI_Isend")(
-          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank + 1, 0, MPI_COMM_WORLD,
+          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank + 1, 0, comm,
           &rsnd[4]);
     }
 
@@ -817,6 +823,8 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
  */
 void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
 {
+    const MPI_Comm comm = piol->comm->getComm();
+
     Param sprm(prm->r, regionSz);
     Param rprm(prm->r, regionSz);
 
@@ -847,22 +855,22 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Isend, "Sort left exseis::utils::Floating_point MPI_Isend")(
           sprm.f.data(), sprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rsnd[0]);
+          MPI_CHAR, rank - 1, 1, comm, &rsnd[0]);
 
         log_on_error(MPI_Isend, "Sort left exseis::utils::Integer MPI_Isend")(
           sprm.i.data(), sprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rsnd[1]);
+          MPI_CHAR, rank - 1, 1, comm, &rsnd[1]);
 
         log_on_error(MPI_Isend, "Sort left short MPI_Isend")(
           sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR, rank - 1, 1,
-          MPI_COMM_WORLD, &rsnd[2]);
+          comm, &rsnd[2]);
 
         log_on_error(MPI_Isend, "Sort left size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 1,
-          MPI_COMM_WORLD, &rsnd[3]);
+          comm, &rsnd[3]);
 
         log_on_error(MPI_Isend, "Sort left header MPI_Isend")(
-          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD,
+          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank - 1, 1, comm,
           &rsnd[4]);
     }
 
@@ -870,22 +878,22 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Irecv, "Sort left exseis::utils::Floating_point MPI_Irecv")(
           rprm.f.data(), rprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank + 1, 1, MPI_COMM_WORLD, &rrcv[0]);
+          MPI_CHAR, rank + 1, 1, comm, &rrcv[0]);
 
         log_on_error(MPI_Irecv, "Sort left exseis::utils::Integer MPI_Irecv")(
           rprm.i.data(), rprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank + 1, 1, MPI_COMM_WORLD, &rrcv[1]);
+          MPI_CHAR, rank + 1, 1, comm, &rrcv[1]);
 
         log_on_error(MPI_Irecv, "Sort left short MPI_Irecv")(
           rprm.s.data(), rprm.s.size() * sizeof(short), MPI_CHAR, rank + 1, 1,
-          MPI_COMM_WORLD, &rrcv[2]);
+          comm, &rrcv[2]);
 
         log_on_error(MPI_Irecv, "Sort left size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 1,
-          MPI_COMM_WORLD, &rrcv[3]);
+          comm, &rrcv[3]);
 
         log_on_error(MPI_Irecv, "Sort left header MPI_Irecv")(
-          rprm.c.data(), rprm.c.size(), MPI_CHAR, rank + 1, 1, MPI_COMM_WORLD,
+          rprm.c.data(), rprm.c.size(), MPI_CHAR, rank + 1, 1, comm,
           &rrcv[4]);
     }
 
@@ -986,7 +994,7 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
         int greduced = 1;
 
         int err = MPI_Allreduce(
-          &reduced, &greduced, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
+          &reduced, &greduced, 1, MPI_INT, MPI_SUM, piol->comm->getComm());
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
-- 
2.43.0


From 6fdc564cd700283b2e55857339e11077d1ded4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:56 +0000
Subject: [PATCH 42/67] fix: open files over the PIOL's communicator by default

The default of DataMPIIO::Opt was MPI_COMM_WORLD, whatever communicator the
PIOL had been made for.
---
 include/ExSeisDat/PIOL/DataMPIIO.hh | 3 ++-
 src/DataMPIIO.cc                    | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ExSeisDat/PIOL/DataMPIIO.hh b/include/ExSeisDat/PIOL/DataMPIIO.hh
index 0c3710b..60a7446 100644
--- a/include/ExSeisDat/PIOL/DataMPIIO.hh
+++ b/include/ExSeisDat/PIOL/DataMPIIO.hh
@@ -58,7 +58,8 @@ class DataMPIIO : public DataInterface {
         /// operation
         size_t maxSize;
 
-        /// The MPI communicator to use for file access
+        /// The MPI communicator to use for file access. MPI_COMM_NULL (the
+        /// default) is the communicator of the PIOL object.
         MPI_Comm fcomm;
 
         /// The constructor to set default options
diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index ba95a8f..f96ead5 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -191,7 +191,7 @@ DataMPIIO::Opt::Opt(void)
 #else
     coll = false;
 #endif
-    fcomm = MPI_COMM_WORLD;
+    fcomm = MPI_COMM_NULL;
     info  = MPI_INFO_NULL;
     MPI_Info_create(&info);
     //    MPI_Info_set(info, "access_style", "read_once");
@@ -310,7 +310,8 @@ void DataMPIIO::Init(const DataMPIIO::Opt& opt, FileMode mode)
           "MPI_CHAR extent is bigger than one.", PIOL_VERBOSITY_NONE);
     }
 
-    fcomm = opt.fcomm;
+    fcomm =
+      (opt.fcomm != MPI_COMM_NULL ? opt.fcomm : piol_->comm->getComm());
 
     int flags = getMPIMode(mode);
 
-- 
2.43.0


From 7beb74be37ccfbc936de44368ff9fdf4a523c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:43 +0000
Subject: [PATCH 43/67] Hook: block and memory sizes of the replication tool
 may be made small (EXSEISDAT_VERIF_HOOKS)

---
 util/makerep.cc | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/util/makerep.cc b/util/makerep.cc
index ec43e22..3184d86 100644
--- a/util/makerep.cc
+++ b/util/makerep.cc
@@ -6,6 +6,9 @@
 #include "ExSeisDat/utils/mpi/MPI_type.hh"
 
 #include <assert.h>
+#ifdef EXSEISDAT_VERIF_HOOKS
+#include <cstdlib>
+#endif
 #include <iostream>
 #include <unistd.h>
 #include <unordered_map>
@@ -13,6 +16,15 @@
 using namespace exseis::utils;
 using namespace exseis::PIOL;
 
+#ifdef EXSEISDAT_VERIF_HOOKS
+// The sizes of the blocks and of the memory may be made small
+size_t verifSetting(const char* name, size_t value)
+{
+    const char* v = std::getenv(name);
+    return (v != nullptr ? std::stoul(v) : value);
+}
+#endif
+
 void printmsg(std::string msg, size_t sz, size_t rank, size_t rankn)
 {
     std::cout << msg << sz << " " << rank << " " << rankn << std::endl;
@@ -177,9 +189,14 @@ void mpiMakeSEGYCopy(
     const size_t fsz = in->getFileSz();
     piol.isErr();
 
+#ifdef EXSEISDAT_VERIF_HOOKS
+    const size_t bsz = verifSetting("EXSEISDAT_VERIF_REPBLOCK", 2097152LU);
+    size_t memlim    = verifSetting("EXSEISDAT_VERIF_REPLIM", 512LU) * bsz;
+#else
     const size_t bsz  = 2097152LU;
-    const size_t hosz = SEGY_utils::getHOSz();
     size_t memlim     = 512U * bsz;
+#endif
+    const size_t hosz = SEGY_utils::getHOSz();
     size_t step       = numRank * memlim;
 
     for (size_t i = 0; i < fsz; i += step) {
@@ -220,9 +237,14 @@ void mpiMakeSEGYCopyNaive(
 {
     size_t numRank    = piol.getNumRank();
     const size_t fsz  = in->getFileSz();
+#ifdef EXSEISDAT_VERIF_HOOKS
+    const size_t bsz = verifSetting("EXSEISDAT_VERIF_REPBLOCK", 2097152LU);
+    size_t memlim    = verifSetting("EXSEISDAT_VERIF_REPLIM", 512LU) * bsz;
+#else
     const size_t bsz  = 2097152LU;
-    const size_t hosz = SEGY_utils::getHOSz();
     size_t memlim     = 512U * bsz;
+#endif
+    const size_t hosz = SEGY_utils::getHOSz();
     size_t step       = numRank * memlim;
 
     for (size_t i = 0; i < fsz; i += step) {
-- 
2.43.0


From f41d9c0016264b0353605154c3b6a166eb05b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:43 +0000
Subject: [PATCH 44/67] fix: decompose data smaller than a block, or ending in
 a part of one, exactly

---
 util/sglobal.cc | 37 +++++++++++--------------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/util/sglobal.cc b/util/sglobal.cc
index 07a1b69..a2ff24b 100644
--- a/util/sglobal.cc
+++ b/util/sglobal.cc
@@ -34,42 +34,27 @@ std::vector<size_t> lobdecompose(
 exseis::utils::Contiguous_decomposition blockDecomp(
   size_t sz, size_t bsz, size_t numRank, size_t rank, size_t off)
 {
-    // Size of the first block
-    size_t rstart = bsz - off % bsz;
-    // Size of the last block
-    size_t rend = (off + sz) % bsz;
-    // The total number of blocks, +2 accounts for start+end
-    size_t bcnt = (sz - rstart - rend) / bsz + 2;
-
-    // Make sure there isn't any leftover, this shouldn't be possible
-    assert(!((sz - rstart - rend) % bsz));
+    // The blocks which the data touches, the first and last perhaps in part
+    const size_t first = off / bsz;
+    const size_t last  = (off + sz + bsz - 1) / bsz;
 
     // Do a regular decomposition of the blocks
-    auto newdec = exseis::utils::block_decomposition(bcnt, numRank, rank);
+    auto newdec = exseis::utils::block_decomposition(
+      sz != 0 ? last - first : 0, numRank, rank);
 
-    newdec.global_offset *= bsz;
-    newdec.local_size *= bsz;
     if (newdec.local_size == 0) {
         return {sz, 0};
     }
 
     // Now we compensate for the fact that the start and end block sizes can be
     // different.
-    if (rank == 0) {
-        // If the rank is zero, we shrink the first block by the leftover
-        newdec.local_size -= bsz - rstart;
-    }
-    else {
-        // The subtraction above means every block is shifted
-        newdec.global_offset -= bsz - rstart;
-    }
+    const size_t start =
+      std::max(off, (first + newdec.global_offset) * bsz);
+    const size_t end = std::min(
+      off + sz, (first + newdec.global_offset + newdec.local_size) * bsz);
 
-    // The last rank with work must remove the leftover of its last block
-    if (
-      newdec.local_size != 0
-      && ((newdec.global_offset + newdec.local_size) > sz)) {
-        newdec.local_size -= bsz - rend;
-    }
+    newdec.global_offset = start - off;
+    newdec.local_size    = end - start;
 
     return newdec;
 }
-- 
2.43.0


From e2cee3236d0aa711b72188544f7c5cd865c54fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:43 +0000
Subject: [PATCH 45/67] fix: replication exchanges data between processes
 wherever their parts are

---
 util/makerep.cc | 117 ++++++++++++++++++------------------------------
 1 file changed, 43 insertions(+), 74 deletions(-)

diff --git a/util/makerep.cc b/util/makerep.cc
index 3184d86..c371b4c 100644
--- a/util/makerep.cc
+++ b/util/makerep.cc
@@ -5,6 +5,7 @@
 #include "ExSeisDat/PIOL/segy_utils.hh"
 #include "ExSeisDat/utils/mpi/MPI_type.hh"
 
+#include <algorithm>
 #include <assert.h>
 #ifdef EXSEISDAT_VERIF_HOOKS
 #include <cstdlib>
@@ -57,92 +58,60 @@ void smallCopy(
     }
 }
 
+// Move data from one decomposition to another. The parts of a process in each
+// may be anywhere and may be empty.
 void distribToDistrib(
   size_t rank,
+  size_t numRank,
   exseis::utils::Contiguous_decomposition old,
   exseis::utils::Contiguous_decomposition newd,
   std::vector<unsigned char>* vec)
 {
-    std::vector<MPI_Request> msg;
-
-    // if the old offset is less than the new offset
-    // Then the local process must give the data over to the
-    //-1 lower ranked process
-
-    // Cases 2, 3, 8
-    if (old.global_offset > newd.global_offset) {
-        size_t incStart = old.global_offset - newd.global_offset;
-        vec->resize(vec->size() + incStart);
-        // Making space for the move
-        std::move_backward(vec->begin(), vec->end() - incStart, vec->end());
-    }
-
-    if (
-      (old.global_offset + old.local_size)
-      < (newd.global_offset + newd.local_size)) {
-
-        vec->resize(
-          vec->size() + newd.global_offset + newd.local_size
-          - (old.global_offset + old.local_size));
-    }
-
-    if (old.global_offset < newd.global_offset) {
-        size_t sz = newd.global_offset - old.global_offset;
-        msg.push_back(MPI_REQUEST_NULL);
-        MPI_Isend(
-          vec->data(), sz, exseis::utils::MPI_type<unsigned char>(), rank - 1,
-          1, MPI_COMM_WORLD, &msg.back());
-    }
-    else if (old.global_offset > newd.global_offset) {
-        size_t sz = old.global_offset - newd.global_offset;
-        msg.push_back(MPI_REQUEST_NULL);
-        MPI_Irecv(
-          vec->data(), sz, exseis::utils::MPI_type<unsigned char>(), rank - 1,
-          0, MPI_COMM_WORLD, &msg.back());
-    }
+    // Where the old and new part of each process start and end
+    std::vector<unsigned long> ext = {
+      old.global_offset, old.global_offset + old.local_size,
+      newd.global_offset, newd.global_offset + newd.local_size};
+    std::vector<unsigned long> all(4 * numRank);
+    int err = MPI_Allgather(
+      ext.data(), 4, MPI_UNSIGNED_LONG, all.data(), 4, MPI_UNSIGNED_LONG,
+      MPI_COMM_WORLD);
+
+    // What this process gives to and takes from each of the others
+    std::vector<int> scount(numRank), sdispl(numRank), rcount(numRank),
+      rdispl(numRank);
+    for (size_t i = 0; i < numRank; i++) {
+        const unsigned long* other = &all[4 * i];
+
+        unsigned long start = std::max(ext[0], other[2]);
+        unsigned long end   = std::min(ext[1], other[3]);
+        if (start < end) {
+            scount[i] = end - start;
+            sdispl[i] = start - ext[0];
+        }
 
-    if (
-      old.global_offset + old.local_size
-      > newd.global_offset + newd.local_size) {
-        size_t sz = old.global_offset + old.local_size
-                    - (newd.global_offset + newd.local_size);
-        msg.push_back(MPI_REQUEST_NULL);
-        MPI_Isend(
-          vec->data() + vec->size() - sz, sz,
-          exseis::utils::MPI_type<unsigned char>(), rank + 1, 0, MPI_COMM_WORLD,
-          &msg.back());
-    }
-    else if (
-      old.global_offset + old.local_size
-      < newd.global_offset + newd.local_size) {
-        size_t sz = (newd.global_offset + newd.local_size)
-                    - (old.global_offset + old.local_size);
-        msg.push_back(MPI_REQUEST_NULL);
-        MPI_Irecv(
-          vec->data() + vec->size() - sz, sz,
-          exseis::utils::MPI_type<unsigned char>(), rank + 1, 1, MPI_COMM_WORLD,
-          &msg.back());
+        start = std::max(other[0], ext[2]);
+        end   = std::min(other[1], ext[3]);
+        if (start < end) {
+            rcount[i] = end - start;
+            rdispl[i] = start - ext[2];
+        }
     }
 
-    MPI_Status stat;
-    for (size_t i = 0; i < msg.size(); i++) {
-        assert(msg[i] != MPI_REQUEST_NULL);
-        int err = MPI_Wait(&msg[i], &stat);
-        // TODO: Replace with standard approach to error handling
-        if (err != MPI_SUCCESS) {
-            std::cerr << "Wait " << i << std::endl;
-            std::cerr << " MPI Error " << stat.MPI_ERROR << std::endl;
-            std::exit(-1);
-        }
+    std::vector<unsigned char> res(newd.local_size);
+    if (err == MPI_SUCCESS) {
+        err = MPI_Alltoallv(
+          vec->data(), scount.data(), sdispl.data(), MPI_UNSIGNED_CHAR,
+          res.data(), rcount.data(), rdispl.data(), MPI_UNSIGNED_CHAR,
+          MPI_COMM_WORLD);
     }
 
-    // Cases 1, 4, 7
-    if (old.global_offset < newd.global_offset) {
-        size_t decStart = newd.global_offset - old.global_offset;
-        std::move(vec->begin() + decStart, vec->end(), vec->begin());
+    // TODO: Replace with standard approach to error handling
+    if (err != MPI_SUCCESS) {
+        std::cerr << "Exchange failed on process " << rank << std::endl;
+        std::exit(-1);
     }
 
-    vec->resize(newd.local_size);
+    vec->swap(res);
 }
 
 // Write an arbitrary parallelised block sz to an arbitrary offset with the
@@ -164,7 +133,7 @@ Contiguous_decomposition writeArb(
     // If there is one rank this is pointless
     if (numRank != 1) {
         // Reorder operations along new boundaries
-        distribToDistrib(rank, dec, newdec, vec);
+        distribToDistrib(rank, numRank, dec, newdec, vec);
     }
 
     out->write(off + newdec.global_offset, newdec.local_size, vec->data());
-- 
2.43.0


From 16eb9efe78a0ddfceb8871024071c4959d05ef13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:43 +0000
Subject: [PATCH 46/67] fix: replicate the later parts of a file at their place

---
 util/makerep.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/makerep.cc b/util/makerep.cc
index c371b4c..d80d838 100644
--- a/util/makerep.cc
+++ b/util/makerep.cc
@@ -177,6 +177,8 @@ void mpiMakeSEGYCopy(
         piol.isErr();
         out->write(i + dec.global_offset, dec.local_size, buf.data());
         piol.isErr();
+        // Where the part of this block which is repeated starts
+        const size_t start = (i == 0 ? hosz : i);
         if (i == 0) {
             // If zero, then current process has read the header object
             if (dec.global_offset == 0) {
@@ -194,7 +196,7 @@ void mpiMakeSEGYCopy(
         size_t numRank = piol.getNumRank();
         for (size_t j = 1; j < repRate; j++) {
             dec = writeArb(
-              rank, numRank, out, hosz + (fsz - hosz) * j + i, bsz, dec, rblock,
+              rank, numRank, out, start + (fsz - hosz) * j, bsz, dec, rblock,
               &buf);
         }
     }
@@ -225,6 +227,8 @@ void mpiMakeSEGYCopyNaive(
         std::vector<unsigned char> buf(dec.local_size);
         in->read(i + dec.global_offset, dec.local_size, buf.data());
         out->write(i + dec.global_offset, dec.local_size, buf.data());
+        // Where the part of this block which is repeated starts
+        const size_t start = (i == 0 ? hosz : i);
         if (i == 0) {
             // If zero, then current process has read the header object
             if (dec.global_offset == 0) {
@@ -240,7 +244,7 @@ void mpiMakeSEGYCopyNaive(
         }
         for (size_t j = 1; j < repRate; j++) {
             out->write(
-              hosz + (fsz - hosz) * j + i + dec.global_offset, dec.local_size,
+              start + (fsz - hosz) * j + dec.global_offset, dec.local_size,
               buf.data());
         }
     }
-- 
2.43.0


From 9b2fcecbd3e30e20cf8c312fa2c1194ce3afd72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:43 +0000
Subject: [PATCH 47/67] fix: a replicated file does not keep the end of a
 longer file it replaces

---
 util/makerep.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/makerep.cc b/util/makerep.cc
index d80d838..f07dd51 100644
--- a/util/makerep.cc
+++ b/util/makerep.cc
@@ -305,6 +305,9 @@ int main(int argc, char** argv)
 
     const size_t fsz = in.getFileSz();
     piol->isErr();
+    // An existing output may be longer
+    out.setFileSz(fsz);
+    piol->isErr();
     if (fsz / numRank < SEGY_utils::getHOSz()) {
         smallCopy(*piol, &in, &out, rep);
     }
-- 
2.43.0


From 9a2da09da8f785591a1ab31d9791df2da62f186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:43 +0000
Subject: [PATCH 48/67] fix: verifysort compares the traces next to each other
 on different processes

---
 util/verifysort.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/util/verifysort.cc b/util/verifysort.cc
index 8f980cf..583fe0b 100644
--- a/util/verifysort.cc
+++ b/util/verifysort.cc
@@ -45,8 +45,14 @@ int main(int argc, char** argv)
     ReadDirect src(piol, name1);
 
     // Perform the decomposition and read coordinates of interest.
-    auto dec = block_decomposition(
-      src.readNt(), piol->comm->getNumRank(), piol->comm->getRank());
+    const size_t nt = src.readNt();
+    auto dec        = block_decomposition(
+      nt, piol->comm->getNumRank(), piol->comm->getRank());
+
+    // Each part includes the first trace of the next, as that must follow too
+    if (dec.local_size != 0 && dec.global_offset + dec.local_size < nt) {
+        dec.local_size++;
+    }
 
     if (checkOrder(src, dec, type)) {
         std::cout << "Success\n";
-- 
2.43.0


From 77757cab86afdf0461683637fefd0cd9e962a6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:43 +0000
Subject: [PATCH 49/67] fix: unequal decomposition never gives out more than
 there is

---
 util/sglobal.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/sglobal.cc b/util/sglobal.cc
index a2ff24b..422e744 100644
--- a/util/sglobal.cc
+++ b/util/sglobal.cc
@@ -8,9 +8,10 @@
 std::vector<size_t> lobdecompose(
   exseis::PIOL::ExSeisPIOL* piol, size_t sz, size_t numRank, size_t rank)
 {
-    double total = (numRank * (numRank + 1U)) / 2U;
+    const size_t total = (numRank * (numRank + 1U)) / 2U;
     rank++;
-    size_t lnt = std::lround(double(sz * rank) / total);
+    // Rounded down, so that the sum is never more than the total
+    size_t lnt = (sz * rank) / total;
 
     auto rem = sz - piol->comm->sum(lnt);
     if (rank == 1) {
-- 
2.43.0


From 4054f5413c7eeacd20b0ec81771ca5033bda6685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:43 +0000
Subject: [PATCH 50/67] fix: filemake makes matching collective calls where a
 process has no traces left

---
 util/filemake.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/filemake.cc b/util/filemake.cc
index 2e0dbdb..21d60f0 100644
--- a/util/filemake.cc
+++ b/util/filemake.cc
@@ -52,7 +52,7 @@ void writeContig(
         piol.isErr();
     }
     for (size_t j = 0; j < extra; j++) {
-        file->writeTrace(0U, size_t(0), nullptr, PIOL_PARAM_NULL);
+        file->writeTrace(0U, size_t(0), nullptr, &prm);
         piol.isErr();
     }
 }
@@ -120,8 +120,9 @@ void writeRandom(
         piol.isErr();
     }
 
+    Param none(0U);
     for (size_t j = 0; j < extra; j++) {
-        file->writeTraceNonContiguous(0U, nullptr, nullptr, PIOL_PARAM_NULL);
+        file->writeTraceNonContiguous(0U, nullptr, nullptr, &none);
         piol.isErr();
     }
 }
-- 
2.43.0


From b326d43fb13cfbe11c7454256560f67af887a237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:43 +0000
Subject: [PATCH 51/67] fix: filemake computes the samples of listed traces
 from their own place

---
 util/filemake.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/filemake.cc b/util/filemake.cc
index 21d60f0..95c9611 100644
--- a/util/filemake.cc
+++ b/util/filemake.cc
@@ -114,7 +114,9 @@ void writeRandom(
         }
         for (size_t j = 0; j < trc.size(); j++) {
             trc[j] =
-              fhalf - std::abs(-fhalf + float((offset[i]) * ns + j)) - off;
+              fhalf
+              - std::abs(-fhalf + float(offset[i + j / ns] * ns + j % ns))
+              - off;
         }
         file->writeTraceNonContiguous(rblock, &offset[i], trc.data(), &prm);
         piol.isErr();
-- 
2.43.0


From b7f08b8d5ef13503864b23de883805be09ed7fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:43 +0000
Subject: [PATCH 52/67] fix: traceanalysis prints negative inlines and
 crosslines as such

---
 util/traceanalysis.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/traceanalysis.cc b/util/traceanalysis.cc
index 777e69c..82becb0 100644
--- a/util/traceanalysis.cc
+++ b/util/traceanalysis.cc
@@ -79,10 +79,12 @@ int main(int argc, char** argv)
                   << std::endl;
 
         std::cout << "il "
-                  << param_utils::getPrm<size_t>(0LU, PIOL_META_il, &prm)
+                  << param_utils::getPrm<exseis::utils::Integer>(
+                       0LU, PIOL_META_il, &prm)
                   << std::endl;
         std::cout << "xl "
-                  << param_utils::getPrm<size_t>(0LU, PIOL_META_xl, &prm)
+                  << param_utils::getPrm<exseis::utils::Integer>(
+                       0LU, PIOL_META_xl, &prm)
                   << std::endl;
     }
     return 0;
-- 
2.43.0


From 766c1385eefd2ea7e97ab126ae4ec6cc33dad939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:10 +0000
Subject: [PATCH 53/67] Restore the exchange between neighbours in makerep

Once the decomposition by blocks is exact the parts of a process never move
further than to its neighbours, so nothing was wrong with it.
---
 util/makerep.cc | 117 ++++++++++++++++++++++++++++++------------------
 1 file changed, 74 insertions(+), 43 deletions(-)

diff --git a/util/makerep.cc b/util/makerep.cc
index f07dd51..67d93b4 100644
--- a/util/makerep.cc
+++ b/util/makerep.cc
@@ -5,7 +5,6 @@
 #include "ExSeisDat/PIOL/segy_utils.hh"
 #include "ExSeisDat/utils/mpi/MPI_type.hh"
 
-#include <algorithm>
 #include <assert.h>
 #ifdef EXSEISDAT_VERIF_HOOKS
 #include <cstdlib>
@@ -58,60 +57,92 @@ void smallCopy(
     }
 }
 
-// Move data from one decomposition to another. The parts of a process in each
-// may be anywhere and may be empty.
 void distribToDistrib(
   size_t rank,
-  size_t numRank,
   exseis::utils::Contiguous_decomposition old,
   exseis::utils::Contiguous_decomposition newd,
   std::vector<unsigned char>* vec)
 {
-    // Where the old and new part of each process start and end
-    std::vector<unsigned long> ext = {
-      old.global_offset, old.global_offset + old.local_size,
-      newd.global_offset, newd.global_offset + newd.local_size};
-    std::vector<unsigned long> all(4 * numRank);
-    int err = MPI_Allgather(
-      ext.data(), 4, MPI_UNSIGNED_LONG, all.data(), 4, MPI_UNSIGNED_LONG,
-      MPI_COMM_WORLD);
-
-    // What this process gives to and takes from each of the others
-    std::vector<int> scount(numRank), sdispl(numRank), rcount(numRank),
-      rdispl(numRank);
-    for (size_t i = 0; i < numRank; i++) {
-        const unsigned long* other = &all[4 * i];
-
-        unsigned long start = std::max(ext[0], other[2]);
-        unsigned long end   = std::min(ext[1], other[3]);
-        if (start < end) {
-            scount[i] = end - start;
-            sdispl[i] = start - ext[0];
-        }
+    std::vector<MPI_Request> msg;
+
+    // if the old offset is less than the new offset
+    // Then the local process must give the data over to the
+    //-1 lower ranked process
+
+    // Cases 2, 3, 8
+    if (old.global_offset > newd.global_offset) {
+        size_t incStart = old.global_offset - newd.global_offset;
+        vec->resize(vec->size() + incStart);
+        // Making space for the move
+        std::move_backward(vec->begin(), vec->end() - incStart, vec->end());
+    }
 
-        start = std::max(other[0], ext[2]);
-        end   = std::min(other[1], ext[3]);
-        if (start < end) {
-            rcount[i] = end - start;
-            rdispl[i] = start - ext[2];
-        }
+    if (
+      (old.global_offset + old.local_size)
+      < (newd.global_offset + newd.local_size)) {
+
+        vec->resize(
+          vec->size() + newd.global_offset + newd.local_size
+          - (old.global_offset + old.local_size));
+    }
+
+    if (old.global_offset < newd.global_offset) {
+        size_t sz = newd.global_offset - old.global_offset;
+        msg.push_back(MPI_REQUEST_NULL);
+        MPI_Isend(
+          vec->data(), sz, exseis::utils::MPI_type<unsigned char>(), rank - 1,
+          1, MPI_COMM_WORLD, &msg.back());
+    }
+    else if (old.global_offset > newd.global_offset) {
+        size_t sz = old.global_offset - newd.global_offset;
+        msg.push_back(MPI_REQUEST_NULL);
+        MPI_Irecv(
+          vec->data(), sz, exseis::utils::MPI_type<unsigned char>(), rank - 1,
+          0, MPI_COMM_WORLD, &msg.back());
+    }
+
+    if (
+      old.global_offset + old.local_size
+      > newd.global_offset + newd.local_size) {
+        size_t sz = old.global_offset + old.local_size
+                    - (newd.global_offset + newd.local_size);
+        msg.push_back(MPI_REQUEST_NULL);
+        MPI_Isend(
+          vec->data() + vec->size() - sz, sz,
+          exseis::utils::MPI_type<unsigned char>(), rank + 1, 0, MPI_COMM_WORLD,
+          &msg.back());
+    }
+    else if (
+      old.global_offset + old.local_size
+      < newd.global_offset + newd.local_size) {
+        size_t sz = (newd.global_offset + newd.local_size)
+                    - (old.global_offset + old.local_size);
+        msg.push_back(MPI_REQUEST_NULL);
+        MPI_Irecv(
+          vec->data() + vec->size() - sz, sz,
+          exseis::utils::MPI_type<unsigned char>(), rank + 1, 1, MPI_COMM_WORLD,
+          &msg.back());
     }
 
-    std::vector<unsigned char> res(newd.local_size);
-    if (err == MPI_SUCCESS) {
-        err = MPI_Alltoallv(
-          vec->data(), scount.data(), sdispl.data(), MPI_UNSIGNED_CHAR,
-          res.data(), rcount.data(), rdispl.data(), MPI_UNSIGNED_CHAR,
-          MPI_COMM_WORLD);
+    MPI_Status stat;
+    for (size_t i = 0; i < msg.size(); i++) {
+        assert(msg[i] != MPI_REQUEST_NULL);
+        int err = MPI_Wait(&msg[i], &stat);
+        // TODO: Replace with standard approach to error handling
+        if (err != MPI_SUCCESS) {
+            std::cerr << "Wait " << i << std::endl;
+            std::cerr << " MPI Error " << stat.MPI_ERROR << std::endl;
+            std::exit(-1);
+        }
     }
 
-    // TODO: Replace with standard approach to error handling
-    if (err != MPI_SUCCESS) {
-        std::cerr << "Exchange failed on process " << rank << std::endl;
-        std::exit(-1);
+    // Cases 1, 4, 7
+    if (old.global_offset < newd.global_offset) {
+        size_t decStart = newd.global_offset - old.global_offset;
+        std::move(vec->begin() + decStart, vec->end(), vec->begin());
     }
 
-    vec->swap(res);
+    vec->resize(newd.local_size);
 }
 
 // Write an arbitrary parallelised block sz to an arbitrary offset with the
@@ -133,7 +164,7 @@ Contiguous_decomposition writeArb(
     // If there is one rank this is pointless
     if (numRank != 1) {
         // Reorder operations along new boundaries
-        distribToDistrib(rank, numRank, dec, newdec, vec);
+        distribToDistrib(rank, dec, newdec, vec);
     }
 
     out->write(off + newdec.global_offset, newdec.local_size, vec->data());
-- 
2.43.0


From a6f5487d594892c0378e7da5f6a679cafbc24863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:00 +0000
Subject: [PATCH 54/67] fix: toAngle: the last sample of the velocity model is
 number vNs - 1

---
 src/Flow/Set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index e68ad2d..7860dd8 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -678,7 +678,7 @@ void Set::toAngle(
                            size_t(
                              exseis::utils::Floating_point(z * in->inc)
                              / state->vInc),
-                           state->vNs)];
+                           state->vNs - 1LU)];
                   exseis::utils::Integer k =
                     llround(
                       vmModel
-- 
2.43.0


From d9ddd9e40fe1028c6deb1a65229aa2c8dfece647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:00 +0000
Subject: [PATCH 55/67] fix: ReadSEGYModel: inline and crossline axes of a
 two-dimensional grid

---
 src/ReadSEGYModel.cc | 58 ++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/ReadSEGYModel.cc b/src/ReadSEGYModel.cc
index 8d25f9e..7c483f1 100644
--- a/src/ReadSEGYModel.cc
+++ b/src/ReadSEGYModel.cc
@@ -7,6 +7,9 @@
 #include "ExSeisDat/PIOL/ReadSEGYModel.hh"
 #include "ExSeisDat/PIOL/param_utils.hh"
 
+#include <algorithm>
+#include <numeric>
+
 namespace exseis {
 namespace PIOL {
 
@@ -25,33 +28,40 @@ ReadSEGYModel::ReadSEGYModel(
   std::shared_ptr<ObjectInterface> obj_) :
     ReadSEGY(piol_, name_, opt, obj_)
 {
-    std::vector<size_t> vlist = {0LU, 1LU, ReadSEGY::readNt() - 1LU};
+    // The crossline is the fastest index, see readModel
+    const size_t nt = ReadSEGY::readNt();
+    std::vector<size_t> vlist(std::min(nt, size_t(3)));
+    std::iota(vlist.begin(), vlist.end(), 0LU);
+    if (nt > 2LU) {
+        vlist.back() = nt - 1LU;
+    }
     Param prm(vlist.size());
     readParamNonContiguous(vlist.size(), vlist.data(), &prm);
 
-    exseis::utils::Integer il_start =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_il, &prm);
-    exseis::utils::Integer xl_start =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_xl, &prm);
-
-    exseis::utils::Integer il_increment =
-      param_utils::getPrm<exseis::utils::Integer>(1LU, PIOL_META_il, &prm)
-      - il_start;
-    exseis::utils::Integer il_count =
-      (il_increment != 0 ?
-         (param_utils::getPrm<exseis::utils::Integer>(2LU, PIOL_META_il, &prm)
-          - il_start)
-           / il_increment :
-         0LU);
-    exseis::utils::Integer xl_count =
-      (ReadSEGY::readNt() / (il_count != 0 ? il_count : 1LU));
-    exseis::utils::Integer xl_increment =
-      (param_utils::getPrm<exseis::utils::Integer>(2LU, PIOL_META_xl, &prm)
-       - xl_start)
-      / xl_count;
-
-    il_increment = (il_increment != 0 ? il_increment : 1LU);
-    xl_increment = (xl_increment != 0 ? xl_increment : 1LU);
+    std::vector<exseis::utils::Integer> ils;
+    std::vector<exseis::utils::Integer> xls;
+    for (size_t i = 0; i < vlist.size(); i++) {
+        ils.push_back(param_utils::getPrm<exseis::utils::Integer>(
+          i, PIOL_META_il, &prm));
+        xls.push_back(param_utils::getPrm<exseis::utils::Integer>(
+          i, PIOL_META_xl, &prm));
+    }
+
+    exseis::utils::Integer il_start     = (nt != 0 ? ils.front() : 0);
+    exseis::utils::Integer il_count     = nt;
+    exseis::utils::Integer il_increment = 1;
+    exseis::utils::Integer xl_start     = (nt != 0 ? xls.front() : 0);
+    exseis::utils::Integer xl_count     = 1;
+    exseis::utils::Integer xl_increment = 1;
+
+    if (nt > 1LU && ils[1] == il_start && xls[1] != xl_start) {
+        xl_increment = xls[1] - xl_start;
+        xl_count     = (xls.back() - xl_start) / xl_increment + 1;
+        il_count     = (xl_count > 0 ? il_count / xl_count : 0);
+    }
+    if (il_count > 1 && ils.back() != il_start) {
+        il_increment = (ils.back() - il_start) / (il_count - 1);
+    }
 
     il = CoordinateParameters(il_start, il_count, il_increment);
     xl = CoordinateParameters(xl_start, xl_count, xl_increment);
-- 
2.43.0


From 1fcbd2fa186256e07c1e4ace4952a1470dea7267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:00 +0000
Subject: [PATCH 56/67] fix: ReadSEGYModel: model traces may be needed in any
 order

---
 src/ReadSEGYModel.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ReadSEGYModel.cc b/src/ReadSEGYModel.cc
index 7c483f1..1399589 100644
--- a/src/ReadSEGYModel.cc
+++ b/src/ReadSEGYModel.cc
@@ -84,7 +84,8 @@ std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModel(
                      + ((val.crossline - xl.start) / xl.increment);
     }
 
-    readTraceNonContiguous(
+    // Gathers come in any order and may belong to the same model trace
+    readTraceNonMonotonic(
       offsets.size(), offsets.data(), trc.data(), PIOL_PARAM_NULL, 0LU);
 
     return trc;
@@ -103,7 +104,8 @@ std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModel(
                      + ((val.crossline - xl.start) / xl.increment);
     }
 
-    readTraceNonContiguous(
+    // Gathers come in any order and may belong to the same model trace
+    readTraceNonMonotonic(
       offsets.size(), offsets.data(), trc.data(), PIOL_PARAM_NULL, 0LU);
 
     return trc;
-- 
2.43.0


From 89cfc59a35253ef80e5b7b5e0d81952abb49cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:00 +0000
Subject: [PATCH 57/67] fix: Set: operations after a gather operation are
 applied once

---
 src/Flow/Set.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 7860dd8..fd6181b 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -158,11 +158,9 @@ std::unique_ptr<TraceBlock> Set::calcFunc(
                   ->func(bIn.get(), bOut.get());
                 bIn = std::move(bOut);
             }
-            ++fCurr;
-            // fallthrough
+            break;
         case FuncOpt::SingleTrace:
             if ((*fCurr)->opt.check(FuncOpt::SingleTrace)) {
-                type = FuncOpt::SingleTrace;
                 dynamic_cast<Op<InPlaceMod>*>(fCurr->get())->func(bIn.get());
             }
         default:
-- 
2.43.0


From ddb717d664d300e6438d8da595440a084663c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:00 +0000
Subject: [PATCH 58/67] fix: Set: a gather operation follows the order a sort
 asked for

---
 src/Flow/Set.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index fd6181b..00c43cc 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -277,7 +277,15 @@ std::vector<std::string> Set::startSingle(
 std::string Set::startGather(
   FuncLst::iterator fCurr, const FuncLst::iterator fEnd)
 {
-    if (file.size() > 1LU) {
+    // The traces are read in the order of the file
+    bool unordered = false;
+    for (auto& f : file) {
+        unordered = unordered || (f->olst != f->ilst);
+    }
+
+    if (
+      file.size() > 1LU
+      || piol->comm->max(static_cast<size_t>(unordered)) != 0LU) {
         OpOpt opt = {FuncOpt::NeedMeta, FuncOpt::NeedTrcVal,
                      FuncOpt::SingleTrace};
         FuncLst tFunc;
-- 
2.43.0


From ea470e2d48b19a7fd9ded44ac4fcade442baef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:18 +0000
Subject: [PATCH 59/67] fix: 4D binning: windows are sized in bytes

---
 util/4dcore.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 290a2b8..64e256e 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -103,23 +103,25 @@ std::vector<MPI_Win> createCoordsWin(const Coords* crd, const bool ixline)
 
     // Look at MPI_Info
     MPIErr(MPI_Win_create(
-      crd->xSrc, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[0]));
+      crd->xSrc, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info, MPI_COMM_WORLD, &win[0]));
     MPIErr(MPI_Win_create(
-      crd->ySrc, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[1]));
+      crd->ySrc, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info, MPI_COMM_WORLD, &win[1]));
     MPIErr(MPI_Win_create(
-      crd->xRcv, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[2]));
+      crd->xRcv, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info, MPI_COMM_WORLD, &win[2]));
     MPIErr(MPI_Win_create(
-      crd->yRcv, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[3]));
+      crd->yRcv, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info, MPI_COMM_WORLD, &win[3]));
     MPIErr(MPI_Win_create(
-      crd->tn, crd->sz, sizeof(size_t), info, MPI_COMM_WORLD, &win[4]));
+      crd->tn, crd->sz * sizeof(size_t), sizeof(size_t), info, MPI_COMM_WORLD, &win[4]));
 
     if (ixline) {
         win.resize(7);
         MPIErr(MPI_Win_create(
-          crd->il, crd->sz, sizeof(exseis::utils::Integer), info,
+          crd->il, crd->sz * sizeof(exseis::utils::Integer),
+          sizeof(exseis::utils::Integer), info,
           MPI_COMM_WORLD, &win[5]));
         MPIErr(MPI_Win_create(
-          crd->xl, crd->sz, sizeof(exseis::utils::Integer), info,
+          crd->xl, crd->sz * sizeof(exseis::utils::Integer),
+          sizeof(exseis::utils::Integer), info,
           MPI_COMM_WORLD, &win[6]));
     }
 
-- 
2.43.0


From 6ddd9aa67c1c12f7c323f254380008f32d434058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:18 +0000
Subject: [PATCH 60/67] fix: 4D binning: the last trace of a block is compared
 too

---
 util/4dcore.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 64e256e..3b0b381 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -288,13 +288,16 @@ size_t update(
     for (; rstart < rend && crd2->xSrc[rstart] < crd1->xSrc[lstart] - dsrmax;
          rstart++) {
     }
-    for (; rend >= rstart && crd2->xSrc[rend] > crd1->xSrc[lend - 1] + dsrmax;
+    for (; rend > rstart && crd2->xSrc[rend - 1] > crd1->xSrc[lend - 1] + dsrmax;
          rend--) {
     }
+    if (rstart == rend) {
+        return 0LU;
+    }
     for (; lstart < lend && crd1->xSrc[lstart] < crd2->xSrc[rstart] - dsrmax;
          lstart++) {
     }
-    for (; lend >= lstart && crd1->xSrc[lend] > crd2->xSrc[rend - 1] + dsrmax;
+    for (; lend > lstart && crd1->xSrc[lend - 1] > crd2->xSrc[rend - 1] + dsrmax;
          lend--) {
     }
 
-- 
2.43.0


From fe2c8eafe5ce15ae2e742d7b3f73aaf7916a0aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:18 +0000
Subject: [PATCH 61/67] fix: 4D binning: the search range covers reversed
 shooting

---
 util/4dcore.cc | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 3b0b381..e5919ad 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -13,6 +13,7 @@
 #include <algorithm>
 #include <assert.h>
 #include <math.h>
+#include <utility>
 
 namespace exseis {
 namespace PIOL {
@@ -253,6 +254,23 @@ void initUpdate(
     }
 }
 
+/*! The range of the x coordinates of sources and receivers. In one shooting
+ *  direction or the other, the source of a trace is compared with the source or
+ *  with the receiver of its match.
+ *  @param[in] crd The coordinates, at least one set of them
+ *  @param[in] start The first set of coordinates
+ *  @param[in] end One past the last set of coordinates
+ *  @return The minimum and the maximum.
+ */
+static std::pair<fourd_t, fourd_t> xRange(
+  const Coords* crd, size_t start, size_t end)
+{
+    auto src = std::minmax_element(crd->xSrc + start, crd->xSrc + end);
+    auto rcv = std::minmax_element(crd->xRcv + start, crd->xRcv + end);
+    return {std::min(*src.first, *rcv.first),
+            std::max(*src.second, *rcv.second)};
+}
+
 /*! Perform a minimisation check with the current two vectors of parameters.
  *  @tparam Init If true, perform the initialisation sequence.
  *  @param[in] crd1 A vector containing the process's parameter data from the
@@ -284,20 +302,22 @@ size_t update(
 
     // Ignore all file2 traces that can not possibly match our criteria within
     // the min/max
-    // of src x.
-    for (; rstart < rend && crd2->xSrc[rstart] < crd1->xSrc[lstart] - dsrmax;
+    // of src x and rcv x.
+    const auto x1 = xRange(crd1, lstart, lend);
+    for (; rstart < rend && crd2->xSrc[rstart] < x1.first - dsrmax;
          rstart++) {
     }
-    for (; rend > rstart && crd2->xSrc[rend - 1] > crd1->xSrc[lend - 1] + dsrmax;
+    for (; rend > rstart && crd2->xSrc[rend - 1] > x1.second + dsrmax;
          rend--) {
     }
     if (rstart == rend) {
         return 0LU;
     }
-    for (; lstart < lend && crd1->xSrc[lstart] < crd2->xSrc[rstart] - dsrmax;
+    const auto x2 = xRange(crd2, rstart, rend);
+    for (; lstart < lend && crd1->xSrc[lstart] < x2.first - dsrmax;
          lstart++) {
     }
-    for (; lend > lstart && crd1->xSrc[lend - 1] > crd2->xSrc[rend - 1] + dsrmax;
+    for (; lend > lstart && crd1->xSrc[lend - 1] > x2.second + dsrmax;
          lend--) {
     }
 
@@ -462,8 +482,9 @@ void calc4DBin(
       piol->comm->gather(std::vector<fourd_t>{crd2->xSrc[crd2->sz - 1LU]});
 
     // The File1 local min and local maximum for the particular process
-    auto xslmin = crd1->xSrc[0LU];
-    auto xslmax = crd1->xSrc[crd1->sz - 1LU];
+    const auto x1     = xRange(crd1, 0LU, crd1->sz);
+    const auto xslmin = x1.first;
+    const auto xslmax = x1.second;
 
     // Perform a local initialisation update of min and minrs
     if (opt.ixline) {
-- 
2.43.0


From 1d19bca3d539a3c621686a81e8b4136193349d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:39 +0000
Subject: [PATCH 62/67] fix: filterOrder of stopband corners below the passband
 corner

The logarithm of the ratio of the corners is negative for highpass filters and
for one side of bandpass and bandstop filters; the negative order became an
enormous unsigned number.
---
 src/temporalfilter.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index 56cab6f..61e97b5 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -45,7 +45,9 @@ size_t filterOrder(
       0.5 * std::log(99.0 / (std::pow(10.0, 0.3) - 1.0)));
 
     return std::ceil(
-      val / std::log(std::tan(pi * cornerS) / std::tan(pi * cornerP)));
+      val
+      / std::fabs(
+          std::log(std::tan(pi * cornerS) / std::tan(pi * cornerP))));
 }
 
 void expandPoly(
-- 
2.43.0


From df86fb38aa16fa389c43ba2d181bdcbb56dc7c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:39 +0000
Subject: [PATCH 63/67] fix: temporalFilter's order from corners in Hz

filterOrder takes the corners relative to the sampling frequency, and was given
them in Hz.
---
 src/temporalfilter.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index 61e97b5..c7446c6 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -259,14 +259,14 @@ void temporalFilter(
         default:
         case FltrType::Lowpass: {
             std::vector<exseis::utils::Trace_value> c = {corner[0LU], 0LU};
-            size_t N = filterOrder(corner[0LU], corner[1LU]);
+            size_t N = filterOrder(corner[0LU] / fs, corner[1LU] / fs);
             temporalFilter(
               nt, ns, trc, fs, type, domain, pad, nw, winCntr, c, N);
         } break;
 
         case FltrType::Highpass: {
             std::vector<exseis::utils::Trace_value> c = {corner[1LU], 0LU};
-            size_t N = filterOrder(corner[1LU], corner[0LU]);
+            size_t N = filterOrder(corner[1LU] / fs, corner[0LU] / fs);
             temporalFilter(
               nt, ns, trc, fs, type, domain, pad, nw, winCntr, c, N);
         } break;
@@ -277,8 +277,8 @@ void temporalFilter(
             temporalFilter(
               nt, ns, trc, fs, type, domain, pad, nw, winCntr, c,
               std::max(
-                filterOrder(corner[1], corner[0]),
-                filterOrder(corner[2], corner[3])));
+                filterOrder(corner[1] / fs, corner[0] / fs),
+                filterOrder(corner[2] / fs, corner[3] / fs)));
         } break;
 
         case FltrType::Bandstop: {
@@ -287,8 +287,8 @@ void temporalFilter(
             temporalFilter(
               nt, ns, trc, fs, type, domain, pad, nw, winCntr, c,
               std::max(
-                filterOrder(corner[0], corner[1]),
-                filterOrder(corner[3], corner[2])));
+                filterOrder(corner[0] / fs, corner[1] / fs),
+                filterOrder(corner[3] / fs, corner[2] / fs)));
         } break;
     }
 }
-- 
2.43.0


From 8a95fe26690279f7093cb8b4fac1ca3290645dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:39 +0000
Subject: [PATCH 64/67] fix: makeFilter's numerator in the order of its
 denominator

The denominator was reversed to coefficients of z^-1 but the numerator was not,
which changed the sign of the numerator of highpass and bandpass filters of odd
order.
---
 src/temporalfilter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index c7446c6..26432dc 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -238,6 +238,7 @@ void makeFilter(
     }
 
     for (size_t i = 0LU; i < (tN + 1LU) / 2LU; i++) {
+        std::swap(numer[i], numer[tN - i]);
         std::swap(denom[i], denom[tN - i]);
     }
 }
-- 
2.43.0


From 767c433858a4e6646ecd11d18f088e85a705c5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:55 +0000
Subject: [PATCH 65/67] fix: temporalFilter's windows which extend past the
 ends of the trace

Such a window read and changed samples of the neighbouring traces, or memory
outside all traces; it is now cut at the ends of its trace.
---
 src/temporalfilter.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index 26432dc..55a5b7b 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -500,6 +500,11 @@ void temporalFilter(
     winCntr = ((winCntr == 0) ? ns / 2LU : winCntr);
 
     assert(winCntr < ns && "Window Center is larger than trace length");
+
+    // The part of the window which is inside the trace
+    const size_t winBegin = (winCntr > nw / 2LU ? winCntr - nw / 2LU : 0LU);
+    nw                    = std::min(winCntr + nw / 2LU + 1LU, ns) - winBegin;
+
     size_t tail    = ((corners[1] == 0) ? 1LU : 2LU);
     size_t numTail = N * tail;
     std::vector<exseis::utils::Trace_value> numer(numTail + 1);
@@ -511,7 +516,7 @@ void temporalFilter(
         std::vector<exseis::utils::Trace_value> trcOrgnl(nw);
 
         for (size_t j = 0; j < nw; j++) {
-            trcOrgnl[j] = trc[i * ns + (winCntr - nw / 2) + j];
+            trcOrgnl[j] = trc[i * ns + winBegin + j];
         }
         switch (domain) {
             case FltrDmn::Time:
@@ -528,7 +533,7 @@ void temporalFilter(
         }
 
         for (size_t j = 0; j < nw; j++) {
-            trc[i * ns + (winCntr - nw / 2LL) + j] = trcOrgnl[j];
+            trc[i * ns + winBegin + j] = trcOrgnl[j];
         }
     }
 }
-- 
2.43.0


From 0d180bdd3903d27e0939d9c827b56f11cff45d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:55 +0000
Subject: [PATCH 66/67] fix: symmetric and cyclic padding longer than the
 window

The padding read samples outside the window, and outside its memory, when it was
longer than the window; it now goes on reflecting or repeating the window.
---
 src/temporalfilter.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index 55a5b7b..be438c7 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -294,6 +294,20 @@ void temporalFilter(
     }
 }
 
+/// The sample at some distance outside the end of a trace which is reflected at
+/// both its ends as often as necessary
+/// @param[in] dist The distance from the end
+/// @param[in] ns   The number of samples in the trace
+/// @return The distance of the sample from that end
+inline size_t reflect(size_t dist, size_t ns)
+{
+    if (ns == 1LU) {
+        return 0LU;
+    }
+    dist %= 2LU * (ns - 1LU);
+    return (dist < ns ? dist : 2LU * (ns - 1LU) - dist);
+}
+
 FltrPad getPad(PadType type)
 {
     switch (type) {
@@ -308,7 +322,9 @@ FltrPad getPad(PadType type)
             return [](
                      exseis::utils::Trace_value* trc, size_t N, size_t nw,
                      size_t j) {
-                return (j < N ? trc[N - j] : trc[2 * nw + N - j]);
+                return (
+                  j < N ? trc[reflect(N - j, nw)] :
+                          trc[nw - reflect(j - N - nw, nw + 1)]);
             };
             break;
 
@@ -324,7 +340,9 @@ FltrPad getPad(PadType type)
             return [](
                      exseis::utils::Trace_value* trc, size_t N, size_t nw,
                      size_t j) {
-                return (j < N ? trc[nw - (N - j)] : trc[j - nw - 1 - N]);
+                return (
+                  j < N ? trc[(nw - (N - j) % nw) % nw] :
+                          trc[(j - N) % (nw + 1)]);
             };
             break;
     }
-- 
2.43.0


From e5e48ee7e25fd689d1c68845349874ebed2b321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:04 +0000
Subject: [PATCH 67/67] fix: report intervals which a SEG-Y header cannot hold

---
 src/WriteSEGY.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index 453ea2a..166efe8 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -182,6 +182,18 @@ void WriteSEGY::writeInc(const exseis::utils::Floating_point inc_)
         return;
     }
 
+    // The interval is stored as a 16 bit integer
+    if (
+      std::abs(std::round(inc_ / incFactor))
+      > std::numeric_limits<int16_t>::max()) {
+        piol->log->record(
+          name, Logger::Layer::File, Logger::Status::Error,
+          "The SEG-Y Interval " + std::to_string(inc_)
+            + " is too large for SEG-Y",
+          PIOL_VERBOSITY_NONE);
+        return;
+    }
+
     if (inc != inc_) {
         inc           = inc_;
         state.writeHO = true;
-- 
2.43.0

