From bbf3451d9ce5c5012d234b836448af2edaa2e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 01/24] fix: report an unopenable trace file as an error

open() failure was passed on to FD_SET/select, which aborts (or waits
forever when no timeout is given).
---
 cffi-interface/trace-db/Utils.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cffi-interface/trace-db/Utils.hpp b/cffi-interface/trace-db/Utils.hpp
index 4bdc924..74cfecd 100644
--- a/cffi-interface/trace-db/Utils.hpp
+++ b/cffi-interface/trace-db/Utils.hpp
@@ -54,6 +54,10 @@ inline boost::iostreams::stream_buffer
     int fd = open(filename, O_RDONLY | O_NONBLOCK);
     int result;
 
+    if (fd < 0) {
+        throw TraceError(std::string(filename) + " could not be opened.");
+    }
+
     /* Now use select() to wait until there is data to read. For a regular
        file, this should return immediately. For a FIFO, it will block until
        some data is written. */
-- 
2.43.0


From 5eafdbf6a8c2198bb342ea6ced93d21871364318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 02/24] fix: do not share the auxiliary value buffer between
 concurrent readers

---
 cffi-interface/trace-db/TracePoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index f0365d4..d8e7f7d 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -291,7 +291,7 @@ private:
 
             case AUXILIARY:
                 {
-                    static uint64_t value;
+                    uint64_t value = 0;
                     BINARY_READ(is, &value, sizeof(value));
                     aux.push_back(value);
                     break;
-- 
2.43.0


From 2c23f2fb3202d76668dbceded5f56e020232d14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 03/24] fix: compare trace point data with the other point, not
 with itself

---
 cffi-interface/trace-db/TracePoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index d8e7f7d..75f92e3 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -428,7 +428,7 @@ public:
     inline bool operator==(const TracePoint & other) const {
         return m_counter == other.m_counter &&
                m_statement == other.m_statement &&
-               m_data == m_data;
+               m_data == other.m_data;
     }
 
     friend std::size_t hash_value(const TracePoint & tracePoint) {
-- 
2.43.0


From 81c3abb76bae417ca5b3b0ce6d7335370cd77338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 04/24] fix: keep the predicate and variables of a cached
 evaluation alive

EvaluatePredicate objects are keys of a cache with static lifetime but only
referenced the caller's predicate and variables.
---
 cffi-interface/trace-db/QueryObjects.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index ef621e6..5ae721b 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -505,8 +505,8 @@ public:
 class EvaluatePredicate
 {
 private:
-    const Predicate & m_predicate;
-    const FlyweightTraceVarInfos & m_variables;
+    const Predicate m_predicate;
+    const FlyweightTraceVarInfos m_variables;
     std::size_t m_hash;
 
     std::size_t computeHash() const {
-- 
2.43.0


From 01960a64dad30c508e1103e6cd07d1f585386ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 05/24] fix: evaluate 8-byte floating point variables as
 doubles in predicates

---
 cffi-interface/trace-db/QueryObjects.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index 5ae721b..b5f66d4 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -564,6 +564,8 @@ private:
                     return PredicateValue(var.getValue().s);
                 else if (f == POINTER)
                     return PredicateValue(var.getValue().u);
+                else if (f == FLOAT && var.getSize() == sizeof(double))
+                    return PredicateValue(var.getValue().d);
                 else if (f == FLOAT)
                     return PredicateValue(var.getValue().f);
                 else
-- 
2.43.0


From 706c82b3f2fe825129d1a5b7c333373a11956a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 06/24] fix: a query without free variables yields one result
 per trace point

The empty binding was also produced by the cartesian product.
---
 cffi-interface/trace-db/Trace.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 0337124..bdefbb3 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -176,6 +176,7 @@ private:
                              FlyweightTraceVarInfos(),
                              std::vector<uint64_t>());
             hard_query_results.push_back(point);
+            return hard_query_results;
         }
 
         // Find possible bindings for each free variable
-- 
2.43.0


From 9630374402c7f88869a65a9b67992375d1c17e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:20 +0000
Subject: [PATCH 07/24] fix: add_trace_points wrote auxiliary values past the
 end of a vector

---
 cffi-interface/trace-db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db.cpp b/cffi-interface/trace-db.cpp
index b34b717..e732068 100644
--- a/cffi-interface/trace-db.cpp
+++ b/cffi-interface/trace-db.cpp
@@ -97,7 +97,7 @@ int add_trace_points(void /* TraceDB */ *db_ptr,
         Aux aux;
 
         for (uint32_t j = 0; j < c_points[i].n_aux; j++) {
-            aux[j] = c_points[i].aux[j];
+            aux.push_back(c_points[i].aux[j]);
         }
 
         for (uint32_t j = 0; j < c_points[i].n_vars; j++) {
-- 
2.43.0


From 79ec279146d6b41b44d191453266312944b59e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:51 +0000
Subject: [PATCH 08/24] fix: reject a truncated or unterminated name dictionary

The names were read past the end of the buffer.
---
 cffi-interface/trace-db/Trace.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index bdefbb3..4a2125a 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -61,6 +61,15 @@ private:
             buf = new char[n_chars];
             BINARY_READ(is, buf, n_chars);
 
+            if (!is.good()) {
+                delete[] buf;
+                throw TraceEOFError();
+            }
+            else if (buf[n_chars - 1] != 0) {
+                delete[] buf;
+                throw TraceError("Unterminated dictionary of names.");
+            }
+
             do {
                 m_names.push_back(std::string(buf + i));
                 while (buf[i] != 0) {
-- 
2.43.0


From 349ef6d3b7659e0e0a1c11757d3a510ba22d7865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:51 +0000
Subject: [PATCH 09/24] fix: reject a trace which ends within the type
 dictionary

A short read of the number of types or of the last type was accepted as a
complete header.
---
 cffi-interface/trace-db/Trace.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 4a2125a..938e64f 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -90,6 +90,11 @@ private:
             m_types.push_back(type);
         }
 
+        /* The stream must not end within the header */
+        if (!is.good()) {
+            throw TraceEOFError();
+        }
+
         /* Read points */
         for (i = 0; is.good() && (i < max_points || max_points == 0); i++) {
             TracePoint point(is, i, m_names, m_types, m_memory_map);
-- 
2.43.0


From 1a5da4d1e431ad51a94910358d6735759df70144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:51 +0000
Subject: [PATCH 10/24] fix: validate the name index of types in the trace
 header

---
 cffi-interface/trace-db/Trace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 938e64f..997834c 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -86,7 +86,7 @@ private:
         m_types.reserve(n_types);
 
         for (i = 0; i < n_types; i++) {
-            TypeDescription type(is);
+            TypeDescription type(is, m_names);
             m_types.push_back(type);
         }
 
-- 
2.43.0


From e59f1afd10970b181dee14a82ddf45077861c607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:51 +0000
Subject: [PATCH 11/24] fix: reject scalar variables larger than the value they
 are read into

---
 cffi-interface/trace-db/TraceVarInfo.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 959f5c6..4ccaec6 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -109,6 +109,10 @@ private:
         m_size = types[m_type_index].getSize();
         m_value.u = 0;
 
+        if (m_format != BLOB && m_size > sizeof(m_value)) {
+            throw TraceError("Invalid size for scalar value.");
+        }
+
         switch (m_format) {
         case SIGNED:
             {
-- 
2.43.0


From 511b098accbd2fd1cfd0feb9bd07eb4b2260a905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:51 +0000
Subject: [PATCH 12/24] fix: initialize the statement of a trace point without
 a statement entry

---
 cffi-interface/trace-db/TracePoint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 75f92e3..cb51cab 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -259,6 +259,7 @@ private:
         Aux aux;
 
         m_counter = counter;
+        m_statement = 0;
 
         while (1) {
             char c = (char) INVALID_TAG;
-- 
2.43.0


From 8dba8a3482159be25c8b19978b56c92a6768a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:51 +0000
Subject: [PATCH 13/24] fix: ignore memory events at the sentinel address

A free of address UINT64_MAX deleted the head of the skip list.
---
 cffi-interface/trace-db/MemoryMap.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cffi-interface/trace-db/MemoryMap.hpp b/cffi-interface/trace-db/MemoryMap.hpp
index e4a688a..ec805bf 100644
--- a/cffi-interface/trace-db/MemoryMap.hpp
+++ b/cffi-interface/trace-db/MemoryMap.hpp
@@ -148,6 +148,10 @@ public:
 
     // Update the memory map with new allocation information
     void updateMemoryMap(const TraceBufferSize &traceBufferSize) {
+        // This address is used as a sentinel and can't be used as a key
+        if (traceBufferSize.getAddress() == UINT64_MAX)
+            return;
+
         if (traceBufferSize.getSize() == 0)
             skipListRemove(traceBufferSize.getAddress());
         else
-- 
2.43.0


From b2469b0c9f1a995edd3c538e9ea14072896e7490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:51 +0000
Subject: [PATCH 14/24] fix: write pointers with the size of their type

---
 cffi-interface/trace-db/TraceVarInfo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 4ccaec6..495bcba 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -264,7 +264,7 @@ private:
         case POINTER:
             {
                 void *val = m_value.ptr;
-                BINARY_WRITE(os, &val, sizeof(val));
+                BINARY_WRITE(os, &val, m_size);
             }
             break;
         case BLOB:
-- 
2.43.0


From 44338c6095eb2f52886d88718bbd3371d339872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:51 +0000
Subject: [PATCH 15/24] fix: order blob variables by their own contents

The comparison read the other blob with the size of this one, and compared
the address of a blob with the value of other variables.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 495bcba..e919446 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -367,7 +367,8 @@ public:
             std::vector<char> data({(char*) m_value.ptr,
                                     (char*) m_value.ptr + m_size});
             std::vector<char> otherData({(char*) other.m_value.ptr,
-                                         (char*) other.m_value.ptr + m_size});
+                                         (char*) other.m_value.ptr +
+                                         other.m_size});
             return std::tie(data,
                             m_name_index,
                             m_type_index,
@@ -383,6 +384,10 @@ public:
                             other.m_buffer_size,
                             other.m_has_buffer_size);
         }
+        else if (m_format == BLOB or other.m_format == BLOB) {
+            // The value of a BLOB is an address; do not order by it
+            return other.m_format == BLOB;
+        }
         else {
             return std::tie(m_value.u,
                             m_name_index,
-- 
2.43.0


From 7a62a3a3c7820dc9ef869c977634b5f1705fc2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:51 +0000
Subject: [PATCH 16/24] fix: find allocations which end at the top of the
 address space

---
 cffi-interface/trace-db/MemoryMap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cffi-interface/trace-db/MemoryMap.hpp b/cffi-interface/trace-db/MemoryMap.hpp
index ec805bf..6029dca 100644
--- a/cffi-interface/trace-db/MemoryMap.hpp
+++ b/cffi-interface/trace-db/MemoryMap.hpp
@@ -167,9 +167,9 @@ public:
         snode *result;
         result = skipListFind(address);
         if (result) {
-            uint64_t region_end = result->key + result->value;
-            if (address <= region_end) {
-                bufferSize = region_end - address;
+            uint64_t offset = address - result->key;
+            if (offset <= result->value) {
+                bufferSize = result->value - offset;
             }
         }
 
-- 
2.43.0


From 862a0bd825d158b3bd3c94eb24a9438cf028d880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:51 +0000
Subject: [PATCH 17/24] fix: forget cached query points when a trace is loaded

---
 cffi-interface/trace-db/Trace.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 997834c..a1901eb 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -407,6 +407,7 @@ public:
         ar & n_names;
         ar & n_types;
 
+        m_getpoints_cache.clear();
         m_points.resize(n_points);
         m_names.resize(n_names);
         m_types.resize(n_types);
-- 
2.43.0


From 9fa7a4b9c71cc3d57c82611eabf8e15686367702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:57 +0000
Subject: [PATCH 18/24] fix: write blobs of a fixed-size type without a size
 field

The reader only expects the size of a blob when its type has no fixed size,
so a written trace with fixed-size blobs could not be read back.
---
 cffi-interface/trace-db/Trace.hpp        |  2 +-
 cffi-interface/trace-db/TracePoint.hpp   | 10 ++++++++--
 cffi-interface/trace-db/TraceVarInfo.hpp |  8 ++++++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index a1901eb..47c553d 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -130,7 +130,7 @@ private:
         }
 
         for (auto & point : m_points) {
-            os << point;
+            point.write(os, m_types);
         }
 
         return os;
diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index cb51cab..62c08a8 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -230,6 +230,7 @@ class TracePoint
 {
 private:
     friend class boost::serialization::access;
+    friend class Trace;
 
     uint64_t m_counter;
     uint64_t m_statement;
@@ -311,7 +312,9 @@ private:
         return is;
     }
 
-    std::ostream & write(std::ostream & os) const {
+    std::ostream & write(std::ostream & os,
+                         const TypeDescriptions & types =
+                             TypeDescriptions()) const {
         os.put(STATEMENT_ID);
         BINARY_WRITE(os, &m_statement, sizeof(m_statement));
 
@@ -322,7 +325,10 @@ private:
 
         for (auto & var : getVars()) {
             os.put(VARIABLE);
-            os << var;
+            const uint32_t type_index = var.get().getTypeIndex();
+            var.get().write(os,
+                            type_index < types.size() &&
+                            types[type_index].getSize() != 0);
         }
 
         for (auto & aux : getAux()) {
diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index e919446..9e7f414 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -43,6 +43,7 @@ class TraceVarInfo
 {
 private:
     friend class boost::serialization::access;
+    friend class TracePoint;
 
     // TraceVarInfo fields include the variable value,
     // variable name index, variable type index,
@@ -188,7 +189,8 @@ private:
         return is;
     }
 
-    std::ostream & write(std::ostream & os) const {
+    std::ostream & write(std::ostream & os,
+                         bool fixed_size_blob = false) const {
         BINARY_WRITE(os, &m_name_index, sizeof(m_name_index));
         BINARY_WRITE(os, &m_type_index, sizeof(m_type_index));
 
@@ -270,7 +272,9 @@ private:
         case BLOB:
             {
                 void *val = m_value.ptr;
-                BINARY_WRITE(os, &m_size, sizeof(m_size));
+                if (!fixed_size_blob) {
+                    BINARY_WRITE(os, &m_size, sizeof(m_size));
+                }
                 BINARY_WRITE(os, val, m_size);
             }
             break;
-- 
2.43.0


From bdb1c5458c741f418d4cde611668a879af5909bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:05 +0000
Subject: [PATCH 19/24] fix: reject type formats above the signed range

---
 cffi-interface/trace-db/TypeDescription.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TypeDescription.hpp b/cffi-interface/trace-db/TypeDescription.hpp
index c08b52b..16de8e3 100644
--- a/cffi-interface/trace-db/TypeDescription.hpp
+++ b/cffi-interface/trace-db/TypeDescription.hpp
@@ -55,7 +55,7 @@ private:
         BINARY_READ(is, &m_format, sizeof(m_format));
         BINARY_READ(is, &m_size, sizeof(m_size));
 
-        if (m_format >= INVALID_FORMAT) {
+        if ((uint32_t) m_format >= INVALID_FORMAT) {
             throw TraceError("Invalid type format.");
         }
 
-- 
2.43.0


From b68fb38bc3322e65eae5c1fc8dbdd93515f21ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:35 +0000
Subject: [PATCH 20/24] fix: wait for trace data across signals and with any
 descriptor

---
 cffi-interface/trace-db/Utils.hpp | 49 +++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/cffi-interface/trace-db/Utils.hpp b/cffi-interface/trace-db/Utils.hpp
index 74cfecd..69c9e32 100644
--- a/cffi-interface/trace-db/Utils.hpp
+++ b/cffi-interface/trace-db/Utils.hpp
@@ -6,10 +6,14 @@
 #ifndef __UTILS_HPP
 #define __UTILS_HPP
 
+#include <errno.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <sys/types.h>
 #include <sys/stat.h>
 
+#include <algorithm>
+#include <chrono>
 #include <iostream>
 
 #include <boost/iostreams/device/file_descriptor.hpp>
@@ -58,23 +62,36 @@ inline boost::iostreams::stream_buffer
         throw TraceError(std::string(filename) + " could not be opened.");
     }
 
-    /* Now use select() to wait until there is data to read. For a regular
+    /* Now use poll() to wait until there is data to read. For a regular
        file, this should return immediately. For a FIFO, it will block until
-       some data is written. */
-    fd_set set;
-    FD_ZERO(&set);
-    FD_SET(fd, &set);
-
-    if (timeout_seconds) {
-        struct timeval timeout;
-        timeout.tv_sec = timeout_seconds;
-        timeout.tv_usec = 0;
-
-        result = select(fd + 1, &set, NULL, NULL, &timeout);
-    }
-    else {
-        result = select(fd + 1, &set, NULL, NULL, NULL);
-    }
+       some data is written. Interruption by a signal must not end the wait,
+       and (unlike with select()) the descriptor may be any number. */
+    typedef std::chrono::steady_clock clock;
+    const clock::time_point start = clock::now();
+    struct pollfd pfd;
+    pfd.fd = fd;
+    pfd.events = POLLIN;
+    pfd.revents = 0;
+
+    do {
+        int wait_ms = -1;
+
+        if (timeout_seconds) {
+            const uint64_t limit = timeout_seconds * 1000;
+            const uint64_t elapsed =
+                std::chrono::duration_cast<std::chrono::milliseconds>
+                    (clock::now() - start).count();
+            wait_ms = (elapsed >= limit) ?
+                      0 :
+                      (int) std::min<uint64_t>(limit - elapsed, 1000000000);
+        }
+
+        result = poll(&pfd, 1, wait_ms);
+
+        if (wait_ms == 0) {
+            break;
+        }
+    } while (result == 0 || (result < 0 && errno == EINTR));
 
     if (result == 1) {
         /* Switch back to block mode */
-- 
2.43.0


From 447f1ea835286bf7f2507ba7ecb69c72e8e2aa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:05 +0000
Subject: [PATCH 21/24] fix: wait for a handshake file which is filled or
 replaced late

---
 instrumentation/c-cpp.lisp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/instrumentation/c-cpp.lisp b/instrumentation/c-cpp.lisp
index 1f29837..1c4b7a9 100644
--- a/instrumentation/c-cpp.lisp
+++ b/instrumentation/c-cpp.lisp
@@ -317,8 +317,11 @@ void __attribute__((constructor(101))) __bi_setup() {
 
   if (handshake_file_path) {
     while (access(handshake_file_path, 0) != 0) { sleep(1); }
-    handshake_file = fopen(handshake_file_path, \"r\");
-    do { sleep(1); } while (fgets(buffer, 1024, handshake_file) == NULL);
+    do {
+      sleep(1);
+      if (handshake_file) { fclose(handshake_file); }
+      handshake_file = fopen(handshake_file_path, \"r\");
+    } while (!handshake_file || fgets(buffer, 1024, handshake_file) == NULL);
     buffer[strcspn(buffer, \"\\n\")] = 0;
     fclose(handshake_file);
     unlink(handshake_file_path);
-- 
2.43.0


From b67edd5991e4a06677d2d5095890fe0f9c844712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:38 +0000
Subject: [PATCH 22/24] fix: release the contents of blob variables

The contents of every blob were allocated when it was read and never
freed, also when the trace was rejected, and a refused allocation was
written to.  They now belong to the variable.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 46 +++++++++++++++++++++---
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 9e7f414..bff649c 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -8,6 +8,8 @@
 #ifndef __TRACE_VAR_INFO_HPP
 #define __TRACE_VAR_INFO_HPP
 
+#include <cstdlib>
+#include <cstring>
 #include <istream>
 #include <ostream>
 #include <string>
@@ -77,6 +79,23 @@ private:
     uint64_t m_buffer_size;
     uint8_t m_has_buffer_size;
 
+    // The contents of a BLOB belong to the object
+    void allocateBlob() {
+        m_value.ptr = malloc(m_size);
+        if (m_value.ptr == NULL && m_size > 0) {
+            throw TraceError("Out of memory.");
+        }
+    }
+
+    void copyBlob(const VarValue & value) {
+        if (m_format == BLOB) {
+            allocateBlob();
+            if (m_size > 0) {
+                memcpy(m_value.ptr, value.ptr, m_size);
+            }
+        }
+    }
+
     std::istream & read(std::istream & is,
                         const Names & names,
                         const TypeDescriptions & types) {
@@ -177,8 +196,15 @@ private:
                     BINARY_READ(is, &m_size, sizeof(m_size));
                 }
 
-                m_value.ptr = malloc(m_size);
-                BINARY_READ(is, m_value.ptr, m_size);
+                allocateBlob();
+                try {
+                    BINARY_READ(is, m_value.ptr, m_size);
+                }
+                catch (...) {
+                    free(m_value.ptr);
+                    m_value.ptr = NULL;
+                    throw;
+                }
                 break;
             }
         case INVALID_FORMAT:
@@ -311,7 +337,9 @@ public:
         m_size(size),
         m_buffer_size(buffer_size),
         m_has_buffer_size(has_buffer_size)
-    {}
+    {
+        copyBlob(value);
+    }
 
     TraceVarInfo(const TraceVarInfo & other) :
         m_value(other.m_value),
@@ -321,7 +349,9 @@ public:
         m_size(other.m_size),
         m_buffer_size(other.m_buffer_size),
         m_has_buffer_size(other.m_has_buffer_size)
-    {}
+    {
+        copyBlob(other.m_value);
+    }
 
     TraceVarInfo(std::istream & is,
                  const Names & names,
@@ -336,6 +366,12 @@ public:
         read(is, names, types, map);
     }
 
+    ~TraceVarInfo() {
+        if (m_format == BLOB) {
+            free(m_value.ptr);
+        }
+    }
+
     TraceVarInfo& operator=(const TraceVarInfo & other) = delete;
 
     inline VarValue getValue() const {
@@ -514,7 +550,7 @@ public:
         ar & m_has_buffer_size;
 
         if (m_format == BLOB) {
-            m_value.ptr = malloc(m_size);
+            allocateBlob();
             for (uint32_t i = 0; i < m_size; i++)
                 ar & ((char*) m_value.ptr)[i];
         }
-- 
2.43.0


From 1915405c4bc5c26073af7e794234ed527328336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:44 +0000
Subject: [PATCH 23/24] fix: release the dictionary buffer when a trace ends
 within its size field

The buffer of the names leaked when the stream failed before it was
read.
---
 cffi-interface/trace-db/Trace.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 47c553d..9254f8b 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -13,6 +13,7 @@
 #include <iterator>
 #include <ostream>
 #include <map>
+#include <memory>
 #include <random>
 #include <string>
 #include <utility>
@@ -53,32 +54,27 @@ private:
         uint64_t n_chars = 0;
         uint32_t n_types = 0;
         uint64_t i = 0;
-        char *buf = NULL;
 
         /* Read dictionary of names */
         BINARY_READ(is, &n_chars, sizeof(n_chars));
         if (n_chars > 0) {
-            buf = new char[n_chars];
-            BINARY_READ(is, buf, n_chars);
+            std::unique_ptr<char[]> buf(new char[n_chars]);
+            BINARY_READ(is, buf.get(), n_chars);
 
             if (!is.good()) {
-                delete[] buf;
                 throw TraceEOFError();
             }
             else if (buf[n_chars - 1] != 0) {
-                delete[] buf;
                 throw TraceError("Unterminated dictionary of names.");
             }
 
             do {
-                m_names.push_back(std::string(buf + i));
+                m_names.push_back(std::string(buf.get() + i));
                 while (buf[i] != 0) {
                     i++;
                 }
                 i++;
             } while (i < n_chars);
-
-            delete[] buf;
         }
 
         /* Read dictionary of types */
-- 
2.43.0


From 690deb7b238e346e048ce8668d00de2db01c50ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:01 +0000
Subject: [PATCH 24/24] fix: restrict queries by file to points which have a
 file

A trace ID names a file only if its flag bit is set.  get-trace honours the
flag, but the statement mask of query-trace did not look at it, so a query
for file 0 also returned every point without a file.
---
 binary-trace-db.lisp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/binary-trace-db.lisp b/binary-trace-db.lisp
index 9dc5e27..41daf41 100644
--- a/binary-trace-db.lisp
+++ b/binary-trace-db.lisp
@@ -569,11 +569,14 @@ the results."
                               (if pick (random (expt 2 32)) 0)
                               (if filter 1 0)
                               (if file-id
-                                  (ash (1- (ash 1 +trace-id-file-bits+))
-                                       +trace-id-statement-bits+)
+                                  (logior (ash 1 63) ;flag bit
+                                          (ash (1- (ash 1 +trace-id-file-bits+))
+                                               +trace-id-statement-bits+))
                                   0)
                               (if file-id
-                                  (ash file-id +trace-id-statement-bits+)
+                                  (logior (ash 1 63) ;flag bit
+                                          (ash file-id
+                                               +trace-id-statement-bits+))
                                   0)
                               results-ptr
                               n-results-ptr)
-- 
2.43.0

