From 9cb50e1ac92aafa002d9b36b4cddf8c2fd51c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 01/58] fix: reductions without input must initialize with the
 element type itself

The reduce functions of uchar, int32, uint32, int64 and uint64 called
laik_char_init for the case that there is no input, which initialized only
a fourth/eighth of the output bytes with 1-byte neutral elements.
---
 src/type.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/type.c b/src/type.c
index d55f755..43e4300 100644
--- a/src/type.c
+++ b/src/type.c
@@ -159,7 +159,7 @@ void laik_uchar_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(unsigned char));
         else
-            laik_char_init(out, count, o);
+            laik_uchar_init(out, count, o);
         return;
     }
 
@@ -234,7 +234,7 @@ void laik_int32_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(int32_t));
         else
-            laik_char_init(out, count, o);
+            laik_int32_init(out, count, o);
         return;
     }
 
@@ -309,7 +309,7 @@ void laik_uint32_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(uint32_t));
         else
-            laik_char_init(out, count, o);
+            laik_uint32_init(out, count, o);
         return;
     }
 
@@ -384,7 +384,7 @@ void laik_int64_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(int64_t));
         else
-            laik_char_init(out, count, o);
+            laik_int64_init(out, count, o);
         return;
     }
 
@@ -459,7 +459,7 @@ void laik_uint64_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(uint64_t));
         else
-            laik_char_init(out, count, o);
+            laik_uint64_init(out, count, o);
         return;
     }
 
-- 
2.43.0


From 50ab42a2efa1cb899f8978f649f796dcca2ee272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 02/58] fix: swapped neutral elements of Min and Max reductions

The init functions of all builtin types used the smallest value for Min and
the largest value for Max, so initialized data dominated every reduction.
---
 src/type.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/type.c b/src/type.c
index 43e4300..8775c24 100644
--- a/src/type.c
+++ b/src/type.c
@@ -63,8 +63,8 @@ void laik_char_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = INT8_MIN; break;
-    case LAIK_RO_Max:  v = INT8_MAX; break;
+    case LAIK_RO_Min:  v = INT8_MAX; break;
+    case LAIK_RO_Max:  v = INT8_MIN; break;
     default:
         assert(0);
     }
@@ -139,8 +139,8 @@ void laik_uchar_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = 255; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT8_MAX; break;
+    case LAIK_RO_Min:  v = UINT8_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -214,8 +214,8 @@ void laik_int32_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = INT32_MIN; break;
-    case LAIK_RO_Max:  v = INT32_MAX; break;
+    case LAIK_RO_Min:  v = INT32_MAX; break;
+    case LAIK_RO_Max:  v = INT32_MIN; break;
     default:
         assert(0);
     }
@@ -289,8 +289,8 @@ void laik_uint32_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT32_MAX; break;
+    case LAIK_RO_Min:  v = UINT32_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -364,8 +364,8 @@ void laik_int64_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0l; break;
     case LAIK_RO_Prod: v = 1l; break;
     case LAIK_RO_And:  v = ~0l; break;
-    case LAIK_RO_Min:  v = INT64_MIN; break;
-    case LAIK_RO_Max:  v = INT64_MAX; break;
+    case LAIK_RO_Min:  v = INT64_MAX; break;
+    case LAIK_RO_Max:  v = INT64_MIN; break;
     default:
         assert(0);
     }
@@ -439,8 +439,8 @@ void laik_uint64_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0l; break;
     case LAIK_RO_Prod: v = 1l; break;
     case LAIK_RO_And:  v = ~0l; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT64_MAX; break;
+    case LAIK_RO_Min:  v = UINT64_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -512,8 +512,8 @@ void laik_double_init(void* base, int count, Laik_ReductionOperation o)
     switch(o) {
     case LAIK_RO_Sum:  v = 0.0; break;
     case LAIK_RO_Prod: v = 1.0; break;
-    case LAIK_RO_Min:  v = -DBL_MAX; break;
-    case LAIK_RO_Max:  v = DBL_MAX; break;
+    case LAIK_RO_Min:  v = DBL_MAX; break;
+    case LAIK_RO_Max:  v = -DBL_MAX; break;
     default:
         assert(0);
     }
@@ -575,8 +575,8 @@ void laik_float_init(void* base, int count, Laik_ReductionOperation o)
     switch(o) {
     case LAIK_RO_Sum:  v = 0.0; break;
     case LAIK_RO_Prod: v = 1.0; break;
-    case LAIK_RO_Min:  v = -FLT_MAX; break;
-    case LAIK_RO_Max:  v = FLT_MAX; break;
+    case LAIK_RO_Min:  v = FLT_MAX; break;
+    case LAIK_RO_Max:  v = -FLT_MAX; break;
     default:
         assert(0);
     }
-- 
2.43.0


From 766a2a655454760b0b799da3d980a8d75b7c486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 03/58] fix: map And/Or reductions to the bitwise MPI
 operations

LAIK reductions And/Or are bitwise (see type.c, also used when reductions are
not offloaded to MPI), but the MPI backend used the logical MPI_LAND/MPI_LOR.
---
 src/backend-mpi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index b0e9cbb..34669af 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -462,8 +462,8 @@ MPI_Op getMPIOp(Laik_ReductionOperation redOp)
     case LAIK_RO_Prod: mpiRedOp = MPI_PROD; break;
     case LAIK_RO_Min:  mpiRedOp = MPI_MIN; break;
     case LAIK_RO_Max:  mpiRedOp = MPI_MAX; break;
-    case LAIK_RO_And:  mpiRedOp = MPI_LAND; break;
-    case LAIK_RO_Or:   mpiRedOp = MPI_LOR; break;
+    case LAIK_RO_And:  mpiRedOp = MPI_BAND; break;
+    case LAIK_RO_Or:   mpiRedOp = MPI_BOR; break;
     default: assert(0);
     }
     return mpiRedOp;
-- 
2.43.0


From 5631ffa51b56463f4a6c0a81d3c28085b2fd93e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 04/58] fix: implement all reduction operations in the TCP
 backend

Only SUM was implemented for offloaded reductions, all other LAIK reductions
(Prod/Min/Max/And/Or) ended in a panic. And/Or are bitwise in LAIK.
---
 src/backends/tcp/backend-tcp.c |  4 +-
 src/backends/tcp/minimpi.c     | 71 +++++++++++++++++++---------------
 src/backends/tcp/minimpi.h     |  4 +-
 src/backends/tcp/mpi.h         |  4 +-
 4 files changed, 45 insertions(+), 38 deletions(-)

diff --git a/src/backends/tcp/backend-tcp.c b/src/backends/tcp/backend-tcp.c
index c740880..b57be5a 100644
--- a/src/backends/tcp/backend-tcp.c
+++ b/src/backends/tcp/backend-tcp.c
@@ -281,8 +281,8 @@ MPI_Op getMPIOp(Laik_ReductionOperation redOp)
     case LAIK_RO_Prod: mpiRedOp = MPI_PROD; break;
     case LAIK_RO_Min:  mpiRedOp = MPI_MIN; break;
     case LAIK_RO_Max:  mpiRedOp = MPI_MAX; break;
-    case LAIK_RO_And:  mpiRedOp = MPI_LAND; break;
-    case LAIK_RO_Or:   mpiRedOp = MPI_LOR; break;
+    case LAIK_RO_And:  mpiRedOp = MPI_BAND; break;
+    case LAIK_RO_Or:   mpiRedOp = MPI_BOR; break;
     default: assert(0);
     }
     return mpiRedOp;
diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index f2eb846..c337422 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -165,40 +165,47 @@ static void laik_tcp_minimpi_combine (void* buffer, const void* data, const size
     laik_tcp_always (data);
     laik_tcp_always (errors);
 
-    switch (op) {
-        case LAIK_TCP_MINIMPI_SUM:
-        switch (datatype) {
-
-#define do_sum(TYPE) TYPE* b = buffer; \
-                     const TYPE* d = data; \
-                     for (size_t i = 0; i < elements; i++) \
-                         b[i] += d[i];
-
-            case LAIK_TCP_MINIMPI_DOUBLE: { do_sum(double)   } break;
-            case LAIK_TCP_MINIMPI_FLOAT:  { do_sum(float)    } break;
-            case LAIK_TCP_MINIMPI_INT64:  { do_sum(int64_t)  } break;
-            case LAIK_TCP_MINIMPI_INT32:  { do_sum(int32_t)  } break;
-            case LAIK_TCP_MINIMPI_INT8:   { do_sum(int8_t)   } break;
-            case LAIK_TCP_MINIMPI_UINT64: { do_sum(uint64_t) } break;
-            case LAIK_TCP_MINIMPI_UINT32: { do_sum(uint32_t) } break;
-            case LAIK_TCP_MINIMPI_UINT8:  { do_sum(uint8_t)  } break;
-#undef do_sum
-            default:
-                    laik_tcp_errors_push (errors, __func__, 0, "Invalid MPI datatype %d", datatype);
-                    break;
-            }
-            break;
-        case LAIK_TCP_MINIMPI_PROD:
-        case LAIK_TCP_MINIMPI_MIN:
-        case LAIK_TCP_MINIMPI_MAX:
-        case LAIK_TCP_MINIMPI_LAND:
-        case LAIK_TCP_MINIMPI_LOR:
-            laik_tcp_errors_push (errors, __func__, 1, "Unimplemented MPI operation %d", op);
-            break;
+    // Combine all elements of an integer type
+#define do_int(TYPE) { \
+        TYPE* b = buffer; \
+        const TYPE* d = data; \
+        switch (op) { \
+            case LAIK_TCP_MINIMPI_BAND: for (size_t i = 0; i < elements; i++) b[i] &= d[i]; return; \
+            case LAIK_TCP_MINIMPI_BOR:  for (size_t i = 0; i < elements; i++) b[i] |= d[i]; return; \
+            default: break; \
+        } \
+    }
+
+    // Combine all elements of any numerical type
+#define do_num(TYPE) { \
+        TYPE* b = buffer; \
+        const TYPE* d = data; \
+        switch (op) { \
+            case LAIK_TCP_MINIMPI_SUM:  for (size_t i = 0; i < elements; i++) b[i] += d[i]; return; \
+            case LAIK_TCP_MINIMPI_PROD: for (size_t i = 0; i < elements; i++) b[i] *= d[i]; return; \
+            case LAIK_TCP_MINIMPI_MIN:  for (size_t i = 0; i < elements; i++) if (d[i] < b[i]) b[i] = d[i]; return; \
+            case LAIK_TCP_MINIMPI_MAX:  for (size_t i = 0; i < elements; i++) if (d[i] > b[i]) b[i] = d[i]; return; \
+            default: break; \
+        } \
+    }
+
+    switch (datatype) {
+        case LAIK_TCP_MINIMPI_DOUBLE: do_num(double);                    break;
+        case LAIK_TCP_MINIMPI_FLOAT:  do_num(float);                     break;
+        case LAIK_TCP_MINIMPI_INT64:  do_num(int64_t);  do_int(int64_t);  break;
+        case LAIK_TCP_MINIMPI_INT32:  do_num(int32_t);  do_int(int32_t);  break;
+        case LAIK_TCP_MINIMPI_INT8:   do_num(int8_t);   do_int(int8_t);   break;
+        case LAIK_TCP_MINIMPI_UINT64: do_num(uint64_t); do_int(uint64_t); break;
+        case LAIK_TCP_MINIMPI_UINT32: do_num(uint32_t); do_int(uint32_t); break;
+        case LAIK_TCP_MINIMPI_UINT8:  do_num(uint8_t);  do_int(uint8_t);  break;
         default:
-            laik_tcp_errors_push (errors, __func__, 1, "Invalid MPI operation %d", op);
-            break;
+            laik_tcp_errors_push (errors, __func__, 0, "Invalid MPI datatype %d", datatype);
+            return;
     }
+#undef do_int
+#undef do_num
+
+    laik_tcp_errors_push (errors, __func__, 1, "Invalid MPI operation %d for datatype %d", op, datatype);
 }
 
 static void* laik_tcp_minimpi_run_async_split (void* input, __attribute__ ((unused)) Laik_Tcp_Errors* errors) {
diff --git a/src/backends/tcp/minimpi.h b/src/backends/tcp/minimpi.h
index 48c08ca..82599d3 100644
--- a/src/backends/tcp/minimpi.h
+++ b/src/backends/tcp/minimpi.h
@@ -35,8 +35,8 @@ typedef enum {
     LAIK_TCP_MINIMPI_PROD,
     LAIK_TCP_MINIMPI_MIN,
     LAIK_TCP_MINIMPI_MAX,
-    LAIK_TCP_MINIMPI_LAND,
-    LAIK_TCP_MINIMPI_LOR,
+    LAIK_TCP_MINIMPI_BAND,
+    LAIK_TCP_MINIMPI_BOR,
 } Laik_Tcp_MiniMpiOp;
 
 typedef size_t Laik_Tcp_MiniMpiStatus;
diff --git a/src/backends/tcp/mpi.h b/src/backends/tcp/mpi.h
index 485cdeb..4a2ccdd 100644
--- a/src/backends/tcp/mpi.h
+++ b/src/backends/tcp/mpi.h
@@ -35,8 +35,8 @@ typedef Laik_Tcp_MiniMpiType MPI_Datatype;
 #define MPI_PROD LAIK_TCP_MINIMPI_PROD
 #define MPI_MIN  LAIK_TCP_MINIMPI_MIN
 #define MPI_MAX  LAIK_TCP_MINIMPI_MAX
-#define MPI_LAND LAIK_TCP_MINIMPI_LAND
-#define MPI_LOR  LAIK_TCP_MINIMPI_LOR
+#define MPI_BAND LAIK_TCP_MINIMPI_BAND
+#define MPI_BOR  LAIK_TCP_MINIMPI_BOR
 typedef Laik_Tcp_MiniMpiOp MPI_Op;
 
 typedef Laik_Tcp_MiniMpiStatus MPI_Status;
-- 
2.43.0


From 02954d40c1532de1609fad9434d7767262eacc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 05/58] fix: order of range borders and split keys lost for
 distances over 2^31

The comparison callbacks returned a 64 bit difference as int. With index
spaces larger than 2^31, borders were sorted wrongly when calculating
transitions.
---
 src/backends/tcp/minimpi.c | 3 ++-
 src/space.c                | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index c337422..ad1bed6 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -139,7 +139,8 @@ static int laik_tcp_split_compare (const void* a, const void* b) {
     const Laik_Tcp_Split* x = a;
     const Laik_Tcp_Split* y = b;
 
-    return x->hint - y->hint;
+    // do not return the difference: it may not fit into an int
+    return (x->hint > y->hint) - (x->hint < y->hint);
 }
 
 static size_t laik_tcp_minimpi_sizeof (const Laik_Tcp_MiniMpiType datatype, Laik_Tcp_Errors* errors) {
diff --git a/src/space.c b/src/space.c
index 9fc04e2..b28c5f1 100644
--- a/src/space.c
+++ b/src/space.c
@@ -833,8 +833,8 @@ static int rb_cmp(const void *p1, const void *p2)
     if (sb1->b == sb2->b) {
         return sb1->isStart - sb2->isStart;
     }
-    return sb1->b - sb2->b;
-
+    // do not return the difference: it may not fit into an int
+    return (sb1->b < sb2->b) ? -1 : 1;
 }
 
 static bool addTask(TaskGroup* g, int task, int maxTasks)
-- 
2.43.0


From 9825d2b0477c93c445efd1a87aed0eaffa2156ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 06/58] fix: send and receive sides of multi-dimensional
 transitions must match

For 2d/3d spaces, sender and receiver used different conditions to skip
messages (e.g. switching from All to a block partitioning hung), and with
multiple ranges per process messages were sent in another order than they
were received.
---
 src/space.c | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/space.c b/src/space.c
index b28c5f1..985eb01 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1329,6 +1329,15 @@ void calcAddReductions(int tflags,
     freeBorderList();
 }
 
+// does <task> own exactly range <r> in given range list?
+static
+bool hasRange(Laik_RangeList* list, int task, Laik_Range* r)
+{
+    for(unsigned int o = list->off[task]; o < list->off[task+1]; o++)
+        if (laik_range_isEqual(r, &(list->trange[o].range))) return true;
+    return false;
+}
+
 static int trans_id = 0;
 
 // Calculate communication required for transitioning between partitionings
@@ -1481,25 +1490,22 @@ do_calc_transition(Laik_Space* space,
             else { // no reduction
 
                 // something to receive not coming from a reduction?
+                // Note: both the conditions for skipping messages and the
+                //  order of messages have to match the sender side below
                 for(int task = 0; task < taskCount; task++) {
                     if (task == myid) continue;
-                    for(o1 = toRL->off[myid]; o1 < toRL->off[myid+1]; o1++) {
+                    for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
 
-                        // everything we have local will not have been sent
+                        // everything we have local will not be sent
                         // TODO: we only check for exact match to catch All
                         // FIXME: should print out a Warning/Error as the App
                         //        was requesting for overwriting of values!
-                        range = &(toRL->trange[o1].range);
-                        for(o2 = fromRL->off[myid]; o2 < fromRL->off[myid+1]; o2++) {
-                            if (laik_range_isEqual(range,
-                                                   &(fromRL->trange[o2].range))) {
-                                range = 0;
-                                break;
-                            }
-                        }
-                        if (range == 0) continue;
+                        if (hasRange(fromRL, myid, &(fromRL->trange[o2].range)))
+                            continue;
 
-                        for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
+                        for(o1 = toRL->off[myid]; o1 < toRL->off[myid+1]; o1++) {
+                            if (hasRange(fromRL, myid, &(toRL->trange[o1].range)))
+                                continue;
 
                             range = laik_range_intersect(&(fromRL->trange[o2].range),
                                                        &(toRL->trange[o1].range));
@@ -1521,18 +1527,13 @@ do_calc_transition(Laik_Space* space,
                     // TODO: we only check for exact match to catch All
                     // FIXME: should print out a Warning/Error as the App
                     //        requests overwriting of values!
-                    range = &(fromRL->trange[o1].range);
-                    for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
-                        if (laik_range_isEqual(range,
-                                               &(fromRL->trange[o2].range))) {
-                            range = 0;
-                            break;
-                        }
-                    }
-                    if (range == 0) continue;
+                    if (hasRange(fromRL, task, &(fromRL->trange[o1].range)))
+                        continue;
 
                     // we may send multiple messages to same task
                     for(o2 = toRL->off[task]; o2 < toRL->off[task+1]; o2++) {
+                        if (hasRange(fromRL, task, &(toRL->trange[o2].range)))
+                            continue;
 
                         range = laik_range_intersect(&(fromRL->trange[o1].range),
                                                    &(toRL->trange[o2].range));
-- 
2.43.0


From 7e675a7cfb945e8d2523ebecd208cf2dee38b7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:25 +0000
Subject: [PATCH 07/58] fix: range filter with no or unordered own ranges

A process without own ranges crashed in laik_partitioning_store_intersectranges
calling an unset filter function. Own ranges are sorted by tag first, and the
binary search over unordered ranges dropped required ranges (or did not end).
---
 include/laik/space-internal.h |  1 +
 src/partitioning.c            | 29 ++++++++++++++++++++++-------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/laik/space-internal.h b/include/laik/space-internal.h
index dde4b54..ead1beb 100644
--- a/include/laik/space-internal.h
+++ b/include/laik/space-internal.h
@@ -123,6 +123,7 @@ typedef struct {
     int64_t from, to;
     Laik_TaskRange_Gen* ts;
     unsigned int len;
+    bool sorted; // ranges in <ts> are ordered and do not overlap
 } PFilterPar;
 
 // parameters for filtering ranges on a partitioner run
diff --git a/src/partitioning.c b/src/partitioning.c
index ef0af90..1f33d5c 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -99,8 +99,15 @@ static bool idxfilter_check(int64_t from, int64_t to, PFilterPar* par)
         return false;
     }
 
-    // binary search
     Laik_TaskRange_Gen* ts = par->ts;
+    if (!par->sorted) {
+        for(unsigned int i = 0; i < par->len; i++)
+            if ((from < ts[i].range.to.i[0]) && (to > ts[i].range.from.i[0]))
+                return true;
+        return false;
+    }
+
+    // binary search
     unsigned int off1 = 0, off2 = par->len;
     while(off1 < off2) {
         unsigned int mid = (off1 + off2) / 2;
@@ -161,28 +168,36 @@ void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list,
     assert(list->space->dims == 1); // TODO: only for 1d for now
 
     assert((tid >= 0) && (tid < (int) list->tid_count));
-    // no own ranges?
+    // install filter function
+    sf->filter_func = idxfilter;
+
+    // no own ranges? then there is nothing to intersect with
     unsigned mycount = list->off[tid+1] - list->off[tid];
     if (mycount == 0) return;
 
     Laik_TaskRange_Gen* ts1 = list->trange + list->off[tid];
-    Laik_TaskRange_Gen* ts2 = list->trange + list->off[tid+1]-1;
 
     PFilterPar* par = malloc(sizeof(PFilterPar));
     par->len = mycount;
     par->from = ts1->range.from.i[0];
-    par->to   = ts2->range.to.i[0];
+    par->to   = ts1->range.to.i[0];
     par->ts = ts1;
 
+    // own ranges are sorted by tag first, and may overlap
+    par->sorted = true;
+    for(unsigned i = 1; i < mycount; i++) {
+        Laik_Range* r = &(ts1[i].range);
+        if (r->from.i[0] < ts1[i-1].range.to.i[0]) par->sorted = false;
+        if (r->from.i[0] < par->from) par->from = r->from.i[0];
+        if (r->to.i[0] > par->to) par->to = r->to.i[0];
+    }
+
     if      (sf->pfilter1 == 0) sf->pfilter1 = par;
     else if (sf->pfilter2 == 0) sf->pfilter2 = par;
     else assert(0);
 
     laik_log(1,"Set pfilter to intersection with %d ranges between [%lld;%lld[",
              par->len, (long long) par->from, (long long) par->to);
-
-    // install filter function
-    sf->filter_func = idxfilter;
 }
 
 
-- 
2.43.0


From 57222fd30c8ce968011ac09e11e67747b72671a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:13 +0000
Subject: [PATCH 08/58] fix: merging ranges of an empty range list must not
 abort

---
 src/rangelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index 69de503..cf5d564 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -410,8 +410,8 @@ static void sortRanges(Laik_RangeList* list)
 
 static void mergeSortedRanges(Laik_RangeList* list)
 {
-    assert(list->trange); // this is for generic ranges
     if (list->count == 0) return;
+    assert(list->trange); // this is for generic ranges
 
     assert(list->space->dims == 1); // current algorithm only works for 1d
 
-- 
2.43.0


From f61f9c5f8ae32e1d7379e0654adac472d619918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:13 +0000
Subject: [PATCH 09/58] fix: renumbering processes must invalidate cached map
 offsets

---
 src/rangelist.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rangelist.c b/src/rangelist.c
index cf5d564..32fdfe9 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -699,6 +699,13 @@ void laik_rangelist_migrate(Laik_RangeList* list, int* idmap, unsigned int new_c
         }
     }
     list->tid_count = new_count;
+
+    // map offsets were calculated for an old task id
+    free(list->map_off);
+    list->map_off = 0;
+    list->map_count = 0;
+    list->map_tid = -1;
+
     sortRanges(list);
     updateOffsets(list);
 }
-- 
2.43.0


From d2e45012ff2c379dafcf1dd8c63ac1cc69974531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:27 +0000
Subject: [PATCH 10/58] fix: coverage check aborted with more than 100
 uncovered parts

---
 src/rangelist.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index 32fdfe9..b22a1aa 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -163,15 +163,22 @@ Laik_TaskRange* laik_rangelist_tidrange(Laik_RangeList* list, int tid, int n)
 // print verbose debug output?
 //#define DEBUG_COVERSPACE 1
 
-// TODO: use dynamic list
-#define COVERLIST_MAX 100
-static Laik_Range notcovered[COVERLIST_MAX];
-static int notcovered_count;
+static Laik_Range* notcovered = 0;
+static int notcovered_count, notcovered_capacity = 0;
 
 static void appendToNotcovered(Laik_Range* s)
 {
-    assert(notcovered_count < COVERLIST_MAX);
-    notcovered[notcovered_count] = *s;
+    // <s> may point into the list which may move when enlarged
+    Laik_Range range = *s;
+    if (notcovered_count == notcovered_capacity) {
+        notcovered_capacity = (notcovered_capacity + 50) * 2;
+        notcovered = realloc(notcovered, notcovered_capacity * sizeof(Laik_Range));
+        if (!notcovered) {
+            laik_panic("Out of memory allocating memory for coversSpace");
+            exit(1); // not actually needed, laik_panic never returns
+        }
+    }
+    notcovered[notcovered_count] = range;
     notcovered_count++;
 }
 
@@ -264,6 +271,7 @@ bool laik_rangelist_coversSpace(Laik_RangeList* list)
                     Laik_Range s = *orig;
                     s.to.i[d] = toRemove->from.i[d];
                     appendToNotcovered(&s);
+                    orig = &(notcovered[j]); // list may have moved
                     // remove appended part from <orig>
                     orig->from.i[d] = toRemove->from.i[d];
                 }
@@ -272,6 +280,7 @@ bool laik_rangelist_coversSpace(Laik_RangeList* list)
                     Laik_Range s = *orig;
                     s.from.i[d] = toRemove->to.i[d];
                     appendToNotcovered(&s);
+                    orig = &(notcovered[j]); // list may have moved
                     // remove appended part from <orig>
                     orig->to.i[d] = toRemove->to.i[d];
                 }
-- 
2.43.0


From c4facf1a226d50bed5e63b84ed9ae06ee3c3375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:47 +0000
Subject: [PATCH 11/58] fix: pack, unpack and copy must use strides of the own
 layout section

---
 src/layout_lex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layout_lex.c b/src/layout_lex.c
index 6f7d429..0285dbc 100644
--- a/src/layout_lex.c
+++ b/src/layout_lex.c
@@ -180,8 +180,8 @@ void copy_lex(Laik_Range* range,
     Laik_Layout_Lex* toLayout = laik_is_layout_lex(to->layout);
     assert(fromLayout != 0);
     assert(toLayout != 0);
-    Lex_Entry* fromLayoutEntry = &(fromLayout->e[0]);
-    Lex_Entry* toLayoutEntry = &(toLayout->e[0]);
+    Lex_Entry* fromLayoutEntry = &(fromLayout->e[from->layoutSection]);
+    Lex_Entry* toLayoutEntry = &(toLayout->e[to->layoutSection]);
 
     unsigned int elemsize = from->data->elemsize;
     assert(elemsize == to->data->elemsize);
@@ -239,7 +239,7 @@ unsigned int pack_lex(Laik_Mapping* m, Laik_Range* s,
 {
     unsigned int elemsize = m->data->elemsize;
     Laik_Layout_Lex* layout = laik_is_layout_lex(m->layout);
-    Lex_Entry* layoutEntry = &(layout->e[0]);
+    Lex_Entry* layoutEntry = &(layout->e[m->layoutSection]);
     int dims = m->layout->dims;
 
     if (laik_index_isEqual(dims, idx, &(s->to))) {
@@ -362,7 +362,7 @@ unsigned int unpack_lex(Laik_Mapping* m, Laik_Range* s,
 {
     unsigned int elemsize = m->data->elemsize;
     Laik_Layout_Lex* layout = laik_is_layout_lex(m->layout);
-    Lex_Entry* layoutEntry = &(layout->e[0]);
+    Lex_Entry* layoutEntry = &(layout->e[m->layoutSection]);
     int dims = m->layout->dims;
 
     // there should be something to unpack
-- 
2.43.0


From 1f553f75428232d344252d052d69eed3206b3754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:50 +0000
Subject: [PATCH 12/58] fix: switches without old or new mappings must not
 dereference them

---
 src/data.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index fb077bd..6d2e0af 100644
--- a/src/data.c
+++ b/src/data.c
@@ -743,6 +743,9 @@ void initMaps(Laik_Transition* t,
 static
 void allocateMappings(Laik_MappingList* toList, Laik_SwitchStat* ss)
 {
+    // nothing to allocate if no partitioning is active after the switch
+    if (toList == 0) return;
+
     for(int i = 0; i < toList->count; i++) {
         Laik_Mapping* map = &(toList->map[i]);
         if (map->base) continue;
@@ -789,7 +792,7 @@ void doTransition(Laik_Data* d, Laik_Transition* t, Laik_ActionSeq* as,
         // no transition to exec, just free old mappings
 
         // only free mappings if not part of a reservation
-        if (fromList->res == 0)
+        if (fromList && (fromList->res == 0))
             freeMappingList(fromList, d->stat);
         return;
     }
-- 
2.43.0


From fcf49cf982604f40db67a3690d92cc0ee8b950c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:50 +0000
Subject: [PATCH 13/58] fix: address of an index is relative to the start of
 the allocation

---
 src/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index 6d2e0af..044dca4 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1415,7 +1415,7 @@ char* laik_get_map_addr(Laik_Data* d, int n, Laik_Index* idx)
     if (!m) return 0;
 
     int64_t off = laik_offset(m->layout, m->layoutSection, idx);
-    return m->base + off * d->elemsize;
+    return m->start + off * d->elemsize;
 }
 
 
-- 
2.43.0


From 8d3ce849a55f5dd5555fc8137c92448259de126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:50 +0000
Subject: [PATCH 14/58] fix: initialisation of mappings must use 64-bit index
 ranges

---
 src/data.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/data.c b/src/data.c
index 044dca4..a1447b1 100644
--- a/src/data.c
+++ b/src/data.c
@@ -715,9 +715,9 @@ void initMaps(Laik_Transition* t,
         assert(dims == 1); // only for 1d now
         Laik_Data* d = toMap->data;
         Laik_Range* s = &(op->range);
-        int from = s->from.i[0];
-        int to = s->to.i[0];
-        int elemCount = to - from;
+        int64_t from = s->from.i[0];
+        int64_t to = s->to.i[0];
+        int64_t elemCount = to - from;
 
         char* toBase = toMap->base;
         assert(from >= toMap->requiredRange.from.i[0]);
@@ -735,8 +735,9 @@ void initMaps(Laik_Transition* t,
             assert(0);
         }
 
-        laik_log(1, "init map for '%s' range/map %d/%d: %d entries in [%d;%d[ from %p\n",
-                 d->name, op->rangeNo, op->mapNo, elemCount, from, to, (void*) toBase);
+        laik_log(1, "init map for '%s' range/map %d/%d: %lld entries in [%lld;%lld[ from %p\n",
+                 d->name, op->rangeNo, op->mapNo, (long long int) elemCount,
+                 (long long int) from, (long long int) to, (void*) toBase);
     }
 }
 
-- 
2.43.0


From a0285c93ee2558b7877dcfd873ea48dfeb4854a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:50 +0000
Subject: [PATCH 15/58] fix: copy data between different mappings of a
 reservation

---
 src/data.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data.c b/src/data.c
index a1447b1..55975ad 100644
--- a/src/data.c
+++ b/src/data.c
@@ -554,9 +554,6 @@ void copyMaps(Laik_Transition* t,
     assert(fromList != 0);
     assert(toList != 0);
 
-    // no copy required if we stay in same reservation
-    if ((fromList->res != 0) && (fromList->res == toList->res)) return;
-
     for(int i = 0; i < t->localCount; i++) {
         struct localTOp* op = &(t->local[i]);
         assert(op->fromMapNo < fromList->count);
@@ -574,6 +571,10 @@ void copyMaps(Laik_Transition* t,
             continue;
         }
 
+        // no copy required if we stay in same memory of a reservation
+        if ((fromMap->baseMapping != 0) &&
+            (fromMap->baseMapping == toMap->baseMapping)) continue;
+
         Laik_Data* d = toMap->data;
         Laik_Range* s = &(op->range);
 
-- 
2.43.0


From b1f3de886aa7bdfaf5f7ea058c9ebf076477f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:50 +0000
Subject: [PATCH 16/58] fix: memory of reservations was never freed

---
 src/data.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/data.c b/src/data.c
index 55975ad..961b82e 100644
--- a/src/data.c
+++ b/src/data.c
@@ -621,10 +621,6 @@ void initEmbeddedMapping(Laik_Mapping* toMap, Laik_Mapping* fromMap)
     toMap->allocCount = fromMap->allocCount;
     toMap->capacity = fromMap->capacity;
 
-    // use allocator of fromMap to deallocate memory
-    toMap->allocator = fromMap->allocator;
-    fromMap->allocator = 0;
-
     // set <base> of embedded mapping according to required vs. allocated
     uint64_t off = laik_offset(toMap->layout, toMap->layoutSection, &(toMap->requiredRange.from));
     toMap->base = toMap->start + off * data->elemsize;
@@ -669,6 +665,10 @@ void checkMapReuse(Laik_MappingList* toList, Laik_MappingList* fromList)
         // always reuse larger mapping
         initEmbeddedMapping(toMap, fromMap);
 
+        // use allocator of fromMap to deallocate memory
+        toMap->allocator = fromMap->allocator;
+        fromMap->allocator = 0;
+
         // mark as reused by range <i>: this prohibits delete of memory
         fromMap->reusedFor = i;
 
@@ -1179,6 +1179,9 @@ void laik_reservation_alloc(Laik_Reservation* res)
 
             initEmbeddedMapping(m, m->baseMapping);
 
+            // base mapping stays owner of the memory
+            m->allocator = 0;
+
             if (laik_log_begin(1)) {
                 laik_log_append("  [%d] ", m->mapNo);
                 laik_log_Range(&(m->requiredRange));
-- 
2.43.0


From 71a92bb3d773b95ae7a9d395a7d61033e65b1abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:04 +0000
Subject: [PATCH 17/58] fix: compare complete binary values of KVS entries

---
 src/kvs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kvs.c b/src/kvs.c
index d42061c..14b01cc 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -243,7 +243,7 @@ void laik_kvs_changes_merge(Laik_KVS_Changes* dst,
             off2++;
         }
         else {
-            if ((e1->vlen != e2->vlen) || (strncmp(e1->value, e2->value, e1->vlen) != 0)) {
+            if ((e1->vlen != e2->vlen) || (memcmp(e1->value, e2->value, e1->vlen) != 0)) {
                 laik_log(LAIK_LL_Panic,
                          "Merging KV changes at key '%s': update inconsistency\n",
                          e1->key);
@@ -371,7 +371,7 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
     bool created;
     if (e) {
         if (e->value) {
-            if (memcmp(e->value, value, (size_t) size) == 0) {
+            if ((e->vlen == size) && (memcmp(e->value, value, (size_t) size) == 0)) {
                 laik_log(1, "KVS '%s': entry '%s' (size %d, '%.20s') already existing",
                          kvs->name, key, size, value);
                 return e;
-- 
2.43.0


From 7db469b0a08215c78b72927df9707fe1fa46b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:04 +0000
Subject: [PATCH 18/58] fix: propagate removal of KVS entries instead of
 aborting at next sync

---
 src/kvs.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/kvs.c b/src/kvs.c
index 14b01cc..372a88b 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -155,7 +155,8 @@ void laik_kvs_changes_add(Laik_KVS_Changes* c,
     c->dataUsed += klen;
     c->off[c->offUsed] = c->dataUsed;
     char* newdata = c->data + c->dataUsed;
-    memcpy(newdata, data, (size_t) dlen);
+    if (dlen > 0) // no data for removed entries
+        memcpy(newdata, data, (size_t) dlen);
     c->dataUsed += dlen;
     c->off[c->offUsed + 1] = c->dataUsed;
     c->offUsed += 2;
@@ -202,7 +203,7 @@ void laik_kvs_changes_sort(Laik_KVS_Changes* c)
         c->entryUsed++;
 
         assert(c->off[off] < c->off[off + 1]); // key range
-        assert(c->off[off + 1] < c->off[off + 2]); // value range
+        assert(c->off[off + 1] <= c->off[off + 2]); // value range, empty: removal
         assert(c->off[off + 2] <= c->dataUsed);
         // key must be terminated by 0
         assert(c->data[c->off[off + 1] - 1] == 0);
@@ -243,7 +244,8 @@ void laik_kvs_changes_merge(Laik_KVS_Changes* dst,
             off2++;
         }
         else {
-            if ((e1->vlen != e2->vlen) || (memcmp(e1->value, e2->value, e1->vlen) != 0)) {
+            if ((e1->vlen != e2->vlen) || ((e1->vlen > 0) &&
+                                               (memcmp(e1->value, e2->value, e1->vlen) != 0))) {
                 laik_log(LAIK_LL_Panic,
                          "Merging KV changes at key '%s': update inconsistency\n",
                          e1->key);
@@ -276,7 +278,12 @@ void laik_kvs_changes_apply(Laik_KVS_Changes* c, Laik_KVStore *kvs)
     assert(c->data != 0);
     for(int i = 0; i + 1 < c->offUsed; i += 2) {
         assert(c->off[i+1] > c->off[i]);
-        assert(c->off[i+2] > c->off[i+1]);
+        assert(c->off[i+2] >= c->off[i+1]);
+        if (c->off[i+2] == c->off[i+1]) {
+            // no data: entry was removed
+            laik_kvs_remove(kvs, c->data + c->off[i]);
+            continue;
+        }
         laik_kvs_set(kvs,
                      c->data + c->off[i],
                      (unsigned)(c->off[i+2] - c->off[i+1]), // data size
@@ -351,7 +358,7 @@ void laik_kvs_clean(Laik_KVStore* kvs)
 bool laik_kvs_remove(Laik_KVStore* kvs, char* key)
 {
     Laik_KVS_Entry* e = laik_kvs_entry(kvs, key);
-    if (!e) return false;
+    if (!e || !e->value) return false; // not existing or already removed
     remove_entry(kvs, e);
     return true;
 }
-- 
2.43.0


From eb54de6d43de151e9e40eda3ba783af8c6914712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:04 +0000
Subject: [PATCH 19/58] fix: changing a KVS entry more than once between syncs
 must not abort

---
 src/kvs.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/kvs.c b/src/kvs.c
index 372a88b..dfd35f9 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -328,6 +328,23 @@ void laik_kvs_free(Laik_KVStore* kvs)
     free(kvs);
 }
 
+// forget change of <key> queued for next sync, as it gets replaced
+static void drop_change(Laik_KVS_Changes* c, char* key)
+{
+    for(int i = 0; i + 2 < c->offUsed; i += 2) {
+        if (strcmp(c->data + c->off[i], key) != 0) continue;
+
+        int len = c->off[i+2] - c->off[i];
+        memmove(c->data + c->off[i], c->data + c->off[i+2],
+                (size_t) (c->dataUsed - c->off[i+2]));
+        c->dataUsed -= len;
+        for(int j = i + 2; j < c->offUsed; j++)
+            c->off[j-2] = c->off[j] - len;
+        c->offUsed -= 2;
+        return;
+    }
+}
+
 static void remove_entry(Laik_KVStore* kvs, Laik_KVS_Entry* e)
 {
     assert(e);
@@ -340,8 +357,11 @@ static void remove_entry(Laik_KVStore* kvs, Laik_KVS_Entry* e)
     e->vlen = 0;
     e->data = 0;
 
-    if (!kvs->in_sync)
+    if (!kvs->in_sync) {
+        if (e->updated) drop_change(&(kvs->changes), e->key);
+        e->updated = true;
         laik_kvs_changes_add(&(kvs->changes), e->key, 0, 0, true, false);
+    }
 }
 
 // remove all entries
@@ -434,6 +454,7 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
     }
 
     if (kvs->in_sync) return e;
+    if (e->updated) drop_change(&(kvs->changes), key);
     e->updated = true;
 
     laik_kvs_changes_add(&(kvs->changes), key, size, value, true, false);
-- 
2.43.0


From 6632211d93144e8252aa3b03cb1642654e513c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:04 +0000
Subject: [PATCH 20/58] fix: free keys and values of a KVS

---
 src/kvs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kvs.c b/src/kvs.c
index dfd35f9..5749c10 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -323,6 +323,10 @@ void laik_kvs_free(Laik_KVStore* kvs)
 {
     assert(kvs);
 
+    for(unsigned int i = 0; i < kvs->used; i++) {
+        free(kvs->entry[i].key);
+        free(kvs->entry[i].value);
+    }
     free(kvs->entry);
     laik_kvs_changes_free(&(kvs->changes));
     free(kvs);
-- 
2.43.0


From 6362714003ca19966d4468acbe2f97f71e39261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:04 +0000
Subject: [PATCH 21/58] fix: KVS sync with no or only short changes must not
 abort

---
 src/backend-mpi.c              | 2 +-
 src/backends/tcp/backend-tcp.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 34669af..a7d47f2 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -1171,7 +1171,7 @@ static void laik_mpi_sync(Laik_KVStore* kvs)
     // send merged changes to all others: may be 0 entries
     count[0] = dst->offUsed;
     count[1] = dst->dataUsed;
-    assert(count[1] > count[0]); // more byte than offsets
+    assert((count[0] == 0) || (count[1] > 0));
     for(int i = 1; i < world->size; i++) {
         laik_log(1, "MPI sync: sending %d changes (total %d chars) to T%d",
                  count[0] / 2, count[1], i);
diff --git a/src/backends/tcp/backend-tcp.c b/src/backends/tcp/backend-tcp.c
index b57be5a..8584a62 100644
--- a/src/backends/tcp/backend-tcp.c
+++ b/src/backends/tcp/backend-tcp.c
@@ -902,7 +902,7 @@ static void laik_tcp_sync(Laik_KVStore* kvs)
     // send merged changes to all others: may be 0 entries
     count[0] = dst->offUsed;
     count[1] = dst->dataUsed;
-    assert(count[1] > count[0]); // more byte than offsets
+    assert((count[0] == 0) || (count[1] > 0));
     for(int i = 1; i < world->size; i++) {
         laik_log(1, "MPI sync: sending %d changes (total %d chars) to T%d",
                  count[0] / 2, count[1], i);
-- 
2.43.0


From 812e271dfb130370e37724347cc9b94b10a542c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:48 +0000
Subject: [PATCH 22/58] fix: MPI backend modified send buffers before
 asynchronous sends completed

---
 src/backend-mpi.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index a7d47f2..5a40aed 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -212,7 +212,8 @@ bool laik_mpi_log_action(Laik_Action* a)
 }
 
 // transformation: split send/recv actions into isend/irecv + wait
-// - replace send with isend and wait for completion at end
+// - replace send with isend and wait for completion before actions of the
+//   next round, as these may modify the buffer to send from
 // - replace recv with irecv at begin and wait at original position
 bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
 {
@@ -220,19 +221,19 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
     assert(as->newActionCount == 0);
 
     unsigned int count = 0;
-    int maxround = 0;
     Laik_Action* a = as->action;
     for(unsigned int i = 0; i < as->actionCount; i++, a = nextAction(a)) {
-        if (a->round > maxround) maxround = a->round;
         if ((a->type == LAIK_AT_BufRecv) || (a->type == LAIK_AT_BufSend))
             count++;
     }
 
     if (count == 0) return false;
 
-    // add 2 new rounds: 0 and maxround+2
+    // add 2 new rounds: at begin and end
     // - round 0 gets MpiReq and all MpiIrecv actions
-    // - round maxround+2 gets Waits from MpiISend actions
+    // - Waits from MpiISend actions go to begin of following round
+    //   (sequence is sorted by rounds, which is a stable sort order)
+    // no deadlock: all MpiIrecv actions already are done in round 0
 
     MPI_Request* buf = malloc(count * sizeof(MPI_Request));
     laik_mpi_addMpiReq(as, 0, count, buf);
@@ -245,7 +246,7 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
             Laik_A_BufSend* aa = (Laik_A_BufSend*) a;
             laik_mpi_addMpiIsend(as, a->round + 1,
                                  aa->buf, aa->count, aa->to_rank, req_id);
-            laik_mpi_addMpiWait(as, maxround + 2, req_id);
+            laik_mpi_addMpiWait(as, a->round + 2, req_id);
             req_id++;
             break;
         }
-- 
2.43.0


From e20b31ebf37bba76b8f6adb9b6618561fd7394b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:01 +0000
Subject: [PATCH 23/58] fix: multi-dimensional or early prepared reductions
 aborted in MPI and TCP backends

---
 src/action.c | 74 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 31 deletions(-)

diff --git a/src/action.c b/src/action.c
index 90b8892..af15306 100644
--- a/src/action.c
+++ b/src/action.c
@@ -1986,37 +1986,27 @@ bool laik_aseq_flattenPacking(Laik_ActionSeq* as)
             break;
         }
 
-        case LAIK_AT_MapGroupReduce:
-
-            // TODO: for >1 dims, use pack/unpack with buffer
-            if (ba->range->space->dims == 1) {
-                char *fromBase, *toBase;
-
-                // if current task is input, fromBase should be allocated
-                if (laik_trans_isInGroup(tc->transition, ba->inputGroup, myid)) {
-                    assert(tc->fromList);
-                    assert(ba->fromMapNo < tc->fromList->count);
-                    fromMap = &(tc->fromList->map[ba->fromMapNo]);
-                    fromBase = fromMap ? fromMap->base : 0;
-                    assert(fromBase != 0);
-                }
-                else {
-                    fromBase = 0;
-                    fromMap = 0;
-                }
+        case LAIK_AT_MapGroupReduce: {
+            bool isInput  = laik_trans_isInGroup(tc->transition, ba->inputGroup, myid);
+            bool isOutput = laik_trans_isInGroup(tc->transition, ba->outputGroup, myid);
+
+            // mappings for own input/output, 0 if not existing or not known yet
+            fromMap = toMap = 0;
+            if (isInput && tc->fromList) {
+                assert(ba->fromMapNo < tc->fromList->count);
+                fromMap = &(tc->fromList->map[ba->fromMapNo]);
+            }
+            if (isOutput && tc->toList) {
+                assert(ba->toMapNo < tc->toList->count);
+                toMap = &(tc->toList->map[ba->toMapNo]);
+            }
 
-                // if current task is receiver, toBase should be allocated
-                if (laik_trans_isInGroup(tc->transition, ba->outputGroup, myid)) {
-                    assert(tc->toList);
-                    assert(ba->toMapNo < tc->toList->count);
-                    toMap = &(tc->toList->map[ba->toMapNo]);
-                    toBase = toMap ? toMap->base : 0;
-                    assert(toBase != 0);
-                }
-                else {
-                    toBase = 0; // no interest in receiving anything
-                    toMap = 0;
-                }
+            if ((ba->range->space->dims == 1) &&
+                (!isInput || (fromMap && fromMap->base)) &&
+                (!isOutput || (toMap && toMap->base))) {
+                // mappings known and 1d: can directly work on mappings
+                char *fromBase = fromMap ? fromMap->base : 0;
+                char *toBase = toMap ? toMap->base : 0;
 
                 // FIXME: this assumes lexicographical layout
                 from = ba->range->from.i[0];
@@ -2036,9 +2026,31 @@ bool laik_aseq_flattenPacking(Laik_ActionSeq* as)
                 laik_aseq_addGroupReduce(as, 3 * a->round + 1,
                                          ba->inputGroup, ba->outputGroup,
                                          fromBase, toBase, count, ba->redOp);
-                handled = true;
             }
+            else {
+                // pack own input into buffer, reduce there, and unpack result
+                int bufID = laik_aseq_addBufReserve(as, ba->count * elemsize, -1);
+                if (fromMap)
+                    laik_aseq_addPackToRBuf(as, 3 * a->round,
+                                            fromMap, ba->range, bufID, 0);
+                else if (isInput)
+                    laik_aseq_addMapPackToRBuf(as, 3 * a->round,
+                                               ba->fromMapNo, ba->range, bufID, 0);
+
+                laik_aseq_addRBufGroupReduce(as, 3 * a->round + 1,
+                                             ba->inputGroup, ba->outputGroup,
+                                             bufID, 0, ba->count, ba->redOp);
+
+                if (toMap)
+                    laik_aseq_addUnpackFromRBuf(as, 3 * a->round + 2,
+                                                bufID, 0, toMap, ba->range);
+                else if (isOutput)
+                    laik_aseq_addMapUnpackFromRBuf(as, 3 * a->round + 2,
+                                                   bufID, 0, ba->toMapNo, ba->range);
+            }
+            handled = true;
             break;
+        }
 
         default: break;
         }
-- 
2.43.0


From db76e4e82a8e4af85578fd8d3291f303171c3b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:31 +0000
Subject: [PATCH 24/58] fix: text of a 3d space in the space store can be
 longer than 100 bytes

---
 src/space.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/space.c b/src/space.c
index 985eb01..89100c2 100644
--- a/src/space.c
+++ b/src/space.c
@@ -416,7 +416,7 @@ void laik_set_space_name(Laik_Space* s, char* n)
 
 char* laik_space_serialize(Laik_Space* s, unsigned* psize)
 {
-    static char buf[100];
+    static char buf[150]; // enough for 6 64-bit numbers in 3d
 
     int off = -1;
     if (s->dims == 1)
-- 
2.43.0


From 575a13faad1612b647aad48f2968c4c2ab5d5582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:31 +0000
Subject: [PATCH 25/58] fix: range of spaces received via space store must
 refer to the space

---
 src/space.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/space.c b/src/space.c
index 89100c2..ae2903d 100644
--- a/src/space.c
+++ b/src/space.c
@@ -440,6 +440,7 @@ bool laik_space_set(Laik_Space* s, char* v)
 {
     if ((v[0] < '1') || (v[0] > '3')) return false;
     s->dims = v[0] - '0';
+    s->range.space = s;
     if (s->dims == 1) {
         if (sscanf(v+1, "(%" SCNd64 "/%" SCNd64 ")",
                    &(s->range.from.i[0]), &(s->range.to.i[0]) ) != 2) return false;
-- 
2.43.0


From 973e2a2e73a001ab3f60b67c1839cc64af4658e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:55 +0000
Subject: [PATCH 26/58] fix: TCP mini-MPI: messages of communicators of the
 same generation got mixed up

Headers of messages only contained the number of the tasks within their
communicator. With two groups derived from the same group, a task being
part of both used the same flow for messages from/to different tasks,
and receives waited forever for messages with wrong serial numbers.
---
 src/backends/tcp/minimpi.c | 39 ++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index ad1bed6..2e6abd5 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -93,7 +93,8 @@ static size_t laik_tcp_minimpi_lookup (const Laik_Tcp_MiniMpiComm* comm, size_t
 }
 
 __attribute__ ((warn_unused_result))
-static GBytes* laik_tcp_minimpi_header (uint64_t generation, uint64_t type, uint64_t sender, uint64_t receiver, uint64_t tag) {
+static GBytes* laik_tcp_minimpi_header (const Laik_Tcp_MiniMpiComm* comm, uint64_t type, size_t sender, size_t receiver, uint64_t tag) {
+    laik_tcp_always (comm);
     laik_tcp_always (flows);
 
     // We are mutating a global variable here, so let's make sure that there's
@@ -102,10 +103,12 @@ static GBytes* laik_tcp_minimpi_header (uint64_t generation, uint64_t type, uint
     LAIK_TCP_LOCK (&lock);
 
     const uint64_t data[] = {
-        GUINT64_TO_LE (generation),
+        GUINT64_TO_LE (comm->generation),
         GUINT64_TO_LE (type),
-        GUINT64_TO_LE (sender),
-        GUINT64_TO_LE (receiver),
+        // Use world ranks: communicators of the same generation share their
+        // flows, but the same rank may be another task in each of them
+        GUINT64_TO_LE (laik_tcp_minimpi_lookup (comm, sender)),
+        GUINT64_TO_LE (laik_tcp_minimpi_lookup (comm, receiver)),
         GUINT64_TO_LE (tag),
         GUINT64_TO_LE (0),
     };
@@ -218,7 +221,7 @@ static void* laik_tcp_minimpi_run_async_split (void* input, __attribute__ ((unus
     // Send our split info structure all other peers
     for (size_t receiver = 0; receiver < info->comm->tasks->len; receiver++) {
         if (receiver != info->comm->rank) {
-            g_autoptr (GBytes) header = laik_tcp_minimpi_header (info->comm->generation, TYPE_SPLIT, info->comm->rank, receiver, 0);
+            g_autoptr (GBytes) header = laik_tcp_minimpi_header (info->comm, TYPE_SPLIT, info->comm->rank, receiver, 0);
             laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (info->comm, receiver), header, info->body);
         }
     }
@@ -264,7 +267,7 @@ int laik_tcp_minimpi_barrier (const Laik_Tcp_MiniMpiComm* comm) {
     if (comm->rank == master) {
         // Receive the ping message from all slaves
         for (size_t slave = 1; slave < comm->tasks->len; slave++) {
-            g_autoptr (GBytes) ping_header = laik_tcp_minimpi_header (comm->generation, TYPE_BARRIER, slave, master, 0);
+            g_autoptr (GBytes) ping_header = laik_tcp_minimpi_header (comm, TYPE_BARRIER, slave, master, 0);
 
             __attribute__ ((unused)) g_autoptr (GBytes) ping_body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, slave), ping_header, errors);
             if (laik_tcp_errors_present (errors)) {
@@ -277,7 +280,7 @@ int laik_tcp_minimpi_barrier (const Laik_Tcp_MiniMpiComm* comm) {
 
         // Synchronously (!) send the pong to all slaves
         for (size_t slave = 1; slave < comm->tasks->len; slave++) {
-            g_autoptr (GBytes) pong_header = laik_tcp_minimpi_header (comm->generation, TYPE_BARRIER, master, slave, 0);
+            g_autoptr (GBytes) pong_header = laik_tcp_minimpi_header (comm, TYPE_BARRIER, master, slave, 0);
             g_autoptr (GBytes) pong_body   = g_bytes_new (NULL, 0);
 
             laik_tcp_messenger_send (messenger, laik_tcp_minimpi_lookup (comm, slave), pong_header, pong_body, errors);
@@ -290,13 +293,13 @@ int laik_tcp_minimpi_barrier (const Laik_Tcp_MiniMpiComm* comm) {
         }
     } else {
         // Send the ping message to the master
-        g_autoptr (GBytes) ping_header = laik_tcp_minimpi_header (comm->generation, TYPE_BARRIER, comm->rank, master, 0);
+        g_autoptr (GBytes) ping_header = laik_tcp_minimpi_header (comm, TYPE_BARRIER, comm->rank, master, 0);
         g_autoptr (GBytes) ping_body   = g_bytes_new (NULL, 0);
         laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (comm, master), ping_header, ping_body);
         laik_tcp_debug ("Slave %zu sent ping to master", comm->rank);
 
         // Receive the pong message from the master
-        g_autoptr (GBytes) pong_header = laik_tcp_minimpi_header (comm->generation, TYPE_BARRIER, master, comm->rank, 0);
+        g_autoptr (GBytes) pong_header = laik_tcp_minimpi_header (comm, TYPE_BARRIER, master, comm->rank, 0);
 
         __attribute__ ((unused)) g_autoptr (GBytes) pong_body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, master), pong_header, errors);
         if (laik_tcp_errors_present (errors)) {
@@ -332,13 +335,13 @@ int laik_tcp_minimpi_bcast (void* buffer, const int elements, const Laik_Tcp_Min
 
         for (size_t receiver = 0; receiver < comm->tasks->len; receiver++) {
             if (receiver != comm->rank) {
-                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_BROADCAST, root, receiver, 0);
+                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm, TYPE_BROADCAST, root, receiver, 0);
 
                 laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (comm, receiver), header, body);
             }
         }
     } else {
-        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_BROADCAST, root, comm->rank, 0);
+        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm, TYPE_BROADCAST, root, comm->rank, 0);
 
         g_autoptr (GBytes) body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, root), header, errors);
         if (laik_tcp_errors_present (errors)) {
@@ -421,7 +424,7 @@ int laik_tcp_minimpi_comm_split (const Laik_Tcp_MiniMpiComm* comm, const int col
         for (size_t sender = 0; sender < comm->tasks->len; sender++) {
             if (sender != comm->rank) {
                 // It's not our turn to send, instead we should receive data
-                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_SPLIT, sender, comm->rank, 0);
+                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm, TYPE_SPLIT, sender, comm->rank, 0);
 
                 g_autoptr (GBytes) body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, sender), header, errors);
                 if (laik_tcp_errors_present (errors)) {
@@ -451,13 +454,13 @@ int laik_tcp_minimpi_comm_split (const Laik_Tcp_MiniMpiComm* comm, const int col
                 // It's our turn to send our split info structure all other peers
                 for (size_t receiver = 0; receiver < comm->tasks->len; receiver++) {
                     if (receiver != comm->rank) {
-                        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_SPLIT, sender, receiver, 0);
+                        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm, TYPE_SPLIT, sender, receiver, 0);
                         laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (comm, receiver), header, split_bytes);
                     }
                 }
             } else {
                 // It's not our turn to send, instead we should receive data
-                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_SPLIT, sender, comm->rank, 0);
+                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm, TYPE_SPLIT, sender, comm->rank, 0);
 
                 g_autoptr (GBytes) body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, sender), header, errors);
                 if (laik_tcp_errors_present (errors)) {
@@ -662,7 +665,7 @@ int laik_tcp_minimpi_recv (void* buffer, const int elements, Laik_Tcp_MiniMpiTyp
         return laik_tcp_minimpi_error (errors);
     }
 
-    g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_SEND_RECEIVE, sender, comm->rank, tag);
+    g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm, TYPE_SEND_RECEIVE, sender, comm->rank, tag);
 
     g_autoptr (GBytes) body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, sender), header, errors);
     if (laik_tcp_errors_present (errors)) {
@@ -705,7 +708,7 @@ int laik_tcp_minimpi_reduce (const void* input_buffer, void* output_buffer, cons
          // Collect the result from all other peers and laik_tcp_minimpi_combine
         for (size_t sender = 0; sender < comm->tasks->len; sender++) {
             if (sender != comm->rank) {
-                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_REDUCE, sender, root, 0);
+                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm, TYPE_REDUCE, sender, root, 0);
 
                 g_autoptr (GBytes) body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, sender), header, errors);
                 if (laik_tcp_errors_present (errors)) {
@@ -728,7 +731,7 @@ int laik_tcp_minimpi_reduce (const void* input_buffer, void* output_buffer, cons
     } else {
         const void* input = input_buffer == LAIK_TCP_MINIMPI_IN_PLACE ? output_buffer : input_buffer;
 
-        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_REDUCE, comm->rank, root, 0);
+        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm, TYPE_REDUCE, comm->rank, root, 0);
         g_autoptr (GBytes) body   = g_bytes_new (input, size);
 
         laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (comm, root), header, body);
@@ -753,7 +756,7 @@ int laik_tcp_minimpi_send (const void* buffer, const int elements, const Laik_Tc
         return laik_tcp_minimpi_error (errors);
     }
 
-    g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_SEND_RECEIVE, comm->rank, receiver, tag);
+    g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm, TYPE_SEND_RECEIVE, comm->rank, receiver, tag);
     g_autoptr (GBytes) body   = g_bytes_new (buffer, size);
 
     laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (comm, receiver), header, body);
-- 
2.43.0


From d15fedcda345b64833483d5272fd8676174b8eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:55 +0000
Subject: [PATCH 27/58] fix: TCP mini-MPI: tasks with same hint in a split got
 inconsistent ranks

The own task was always the first of all tasks with the same hint, so
each of them got the same rank in the new communicator.
---
 src/backends/tcp/minimpi.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index 2e6abd5..09ef254 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -143,7 +143,12 @@ static int laik_tcp_split_compare (const void* a, const void* b) {
     const Laik_Tcp_Split* y = b;
 
     // do not return the difference: it may not fit into an int
-    return (x->hint > y->hint) - (x->hint < y->hint);
+    if (x->hint != y->hint) {
+        return (x->hint > y->hint) - (x->hint < y->hint);
+    }
+
+    // tasks with the same hint are ordered by their old rank
+    return (x->rank > y->rank) - (x->rank < y->rank);
 }
 
 static size_t laik_tcp_minimpi_sizeof (const Laik_Tcp_MiniMpiType datatype, Laik_Tcp_Errors* errors) {
-- 
2.43.0


From b66172a23050c75aa1b3534936869d3d79b5ca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:42 +0000
Subject: [PATCH 28/58] fix: TCP mini-MPI: check host name for termination, not
 the uninitialised result buffer

---
 src/backends/tcp/minimpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index 09ef254..5fef5a6 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -580,7 +580,7 @@ int laik_tcp_minimpi_get_processor_name (char* name, int* result_length) {
     g_autoptr (Laik_Tcp_Errors) errors = laik_tcp_errors_new ();
 
     char hostname[1024];
-    if (gethostname (hostname, sizeof (hostname)) != 0 || strnlen (name, sizeof (hostname)) == sizeof (hostname)) {
+    if (gethostname (hostname, sizeof (hostname)) != 0 || strnlen (hostname, sizeof (hostname)) == sizeof (hostname)) {
         laik_tcp_errors_push (errors, __func__, 0, "Failed to determine hostname");
         return laik_tcp_minimpi_error (errors);
     }
-- 
2.43.0


From 412514fdeaf660ecae88e6d04d92345ab836aa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:33 +0000
Subject: [PATCH 29/58] fix: halo partitioner dropped halos reaching the border
 of the space

Halos now are cut off at the border instead.
---
 src/partitioner.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index a285f7c..8dd619d 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -311,44 +311,58 @@ void runHaloPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
 
         Laik_Range range = *s;
         laik_append_range(r, task, &range, tag, 0);
+        if (depth == 0) continue;
 
-        if (range.from.i[0] > sp.from.i[0] + depth) {
+        // halos are cut off at the borders of the space
+        if (range.from.i[0] > sp.from.i[0]) {
             range.to.i[0] = range.from.i[0];
             range.from.i[0] -= depth;
+            if (range.from.i[0] < sp.from.i[0])
+                range.from.i[0] = sp.from.i[0];
             laik_append_range(r, task, &range, tag, 0);
         }
         range = *s;
-        if (range.to.i[0] < sp.to.i[0] - depth) {
+        if (range.to.i[0] < sp.to.i[0]) {
             range.from.i[0] = range.to.i[0];
             range.to.i[0] += depth;
+            if (range.to.i[0] > sp.to.i[0])
+                range.to.i[0] = sp.to.i[0];
             laik_append_range(r, task, &range, tag, 0);
         }
 
         if (dims > 1) {
             range = *s;
-            if (range.from.i[1] > sp.from.i[1] + depth) {
+            if (range.from.i[1] > sp.from.i[1]) {
                 range.to.i[1] = range.from.i[1];
                 range.from.i[1] -= depth;
+                if (range.from.i[1] < sp.from.i[1])
+                    range.from.i[1] = sp.from.i[1];
                 laik_append_range(r, task, &range, tag, 0);
             }
             range = *s;
-            if (range.to.i[1] < sp.to.i[1] - depth) {
+            if (range.to.i[1] < sp.to.i[1]) {
                 range.from.i[1] = range.to.i[1];
                 range.to.i[1] += depth;
+                if (range.to.i[1] > sp.to.i[1])
+                    range.to.i[1] = sp.to.i[1];
                 laik_append_range(r, task, &range, tag, 0);
             }
 
             if (dims > 2) {
                 range = *s;
-                if (range.from.i[2] > sp.from.i[2] + depth) {
+                if (range.from.i[2] > sp.from.i[2]) {
                     range.to.i[2] = range.from.i[2];
                     range.from.i[2] -= depth;
+                    if (range.from.i[2] < sp.from.i[2])
+                        range.from.i[2] = sp.from.i[2];
                     laik_append_range(r, task, &range, tag, 0);
                 }
                 range = *s;
-                if (range.to.i[2] < sp.to.i[2] - depth) {
+                if (range.to.i[2] < sp.to.i[2]) {
                     range.from.i[2] = range.to.i[2];
                     range.to.i[2] += depth;
+                    if (range.to.i[2] > sp.to.i[2])
+                        range.to.i[2] = sp.to.i[2];
                     laik_append_range(r, task, &range, tag, 0);
                 }
             }
-- 
2.43.0


From 10d19b12423841790a90895a72156c7e9d1ce78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:33 +0000
Subject: [PATCH 30/58] fix: bisection partitioner failed with more tasks than
 indexes

---
 src/partitioner.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index 8dd619d..c5751d1 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -424,7 +424,9 @@ static void doBisection(Laik_RangeReceiver* r, Laik_PartitionerParams* p,
     Laik_Range s1 = *s, s2 = *s;
     s1.to.i[splitDim] = s->from.i[splitDim] + w;
     s2.from.i[splitDim] = s->from.i[splitDim] + w;
-    doBisection(r, p, &s1, fromTask, midTask);
+    // with more tasks than indexes, the first part may be empty
+    if (w > 0)
+        doBisection(r, p, &s1, fromTask, midTask);
     doBisection(r, p, &s2, midTask, toTask);
 }
 
-- 
2.43.0


From 4a81c4aaa7094828fe97f857c19ca40050e55115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:33 +0000
Subject: [PATCH 31/58] fix: grid partitioner could lose last index due to
 rounding

---
 src/partitioner.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index c5751d1..fcd3d4e 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -473,24 +473,24 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
     for(int z = 0; z < data->zblocks; z++) {
         from = ss->from.i[2] + z * zStep;
         to   = ss->from.i[2] + (z+1) * zStep;
+        if ((z+1 == data->zblocks) || (to > ss->to.i[2])) to = ss->to.i[2];
         if (from == to) continue;
-        if (to > ss->to.i[2]) to = ss->to.i[2];
         range.from.i[2] = from;
         range.to.i[2]   = to;
 
         for(int y = 0; y < data->yblocks; y++) {
             from = ss->from.i[1] + y * yStep;
             to   = ss->from.i[1] + (y+1) * yStep;
+            if ((y+1 == data->yblocks) || (to > ss->to.i[1])) to = ss->to.i[1];
             if (from == to) continue;
-            if (to > ss->to.i[1]) to = ss->to.i[1];
             range.from.i[1] = from;
             range.to.i[1]   = to;
 
             for(int x = 0; x < data->xblocks; x++) {
                 from = ss->from.i[0] + x * xStep;
                 to   = ss->from.i[0] + (x+1) * xStep;
+                if ((x+1 == data->xblocks) || (to > ss->to.i[0])) to = ss->to.i[0];
                 if (from == to) continue;
-                if (to > ss->to.i[0]) to = ss->to.i[0];
                 range.from.i[0] = from;
                 range.to.i[0]   = to;
 
-- 
2.43.0


From ba660acd463f3a5b719eea1d95079d9767200162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:33 +0000
Subject: [PATCH 32/58] fix: block partitioner failed with few indexes or small
 index weights

The rounding offset must not be larger than an average index weight, and
there may be tasks not getting any index.
---
 src/partitioner.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index fcd3d4e..3d0f9ce 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -588,7 +588,9 @@ void runBlockPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
 
     int cycles = data ? data->cycles : 1;
     double perPart = totalW / count / cycles;
+    // round to nearest border, but never by more than half of an average index
     double w = -0.5;
+    if (totalW < size) w = -0.5 * totalW / size;
     int task = 0;
     int cycle = 0;
 
@@ -632,7 +634,8 @@ void runBlockPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         }
         if ((task+1 == count) && (cycle+1 == cycles)) break;
     }
-    assert((task+1 == count) && (cycle+1 == cycles));
+    // left over indexes go to current task. This may not be the last one
+    // if there are not enough indexes or weights are zero
     range.to.i[pdim] = s->range.to.i[pdim];
     laik_append_range(r, task, &range, 0, 0);
 }
-- 
2.43.0


From 137333c6237a60c286885fe220c31dc5743abc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:34 +0000
Subject: [PATCH 33/58] fix: cycle count 0 is invalid for the block partitioner

---
 src/partitioner.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index 3d0f9ce..2791e21 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -710,7 +710,7 @@ void laik_set_cycle_count(Laik_Partitioner* pr, int cycles)
     Laik_BlockPartitionerData* data;
     data = (Laik_BlockPartitionerData*) pr->data;
 
-    if ((cycles < 0) || (cycles>10)) cycles = 1;
+    if ((cycles < 1) || (cycles>10)) cycles = 1;
     data->cycles = cycles;
 }
 
-- 
2.43.0


From 5c36eb777be754d35d51ae007e015154aed3c24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:03 +0000
Subject: [PATCH 34/58] fix: wait for asynchronous sends before a failing
 communicator split returns

---
 src/backends/tcp/minimpi.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index 5fef5a6..42cd27f 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -434,22 +434,23 @@ int laik_tcp_minimpi_comm_split (const Laik_Tcp_MiniMpiComm* comm, const int col
                 g_autoptr (GBytes) body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, sender), header, errors);
                 if (laik_tcp_errors_present (errors)) {
                     laik_tcp_errors_push (errors, __func__, 0, "Failed to receive split info from task %zu", sender);
-                    return laik_tcp_minimpi_error (errors);
+                    break;
                 }
 
                 if (g_bytes_get_size (body) != sizeof (Laik_Tcp_Split)) {
                     laik_tcp_errors_push (errors, __func__, 1, "Task %zu sent %zu bytes when splitting, expected %zu bytes", sender, g_bytes_get_size (body), sizeof (Laik_Tcp_Split));
-                    return laik_tcp_minimpi_error (errors);
+                    break;
                 }
 
                 g_array_append_vals (splits, g_bytes_get_data (body, NULL), 1);
             }
         }
 
-        // Wait for the asynchronous send operations to complete
+        // Wait for the asynchronous send operations to complete, also if a
+        // receive operation failed: they use our local variables
         __attribute__ ((unused)) void* result = laik_tcp_async_wait (async, errors);
         if (laik_tcp_errors_present (errors)) {
-            laik_tcp_errors_push (errors, __func__, 2, "Asynchronous send operation failed");
+            laik_tcp_errors_push (errors, __func__, 2, "Failed to exchange split info");
             return laik_tcp_minimpi_error (errors);
         }
     } else {
-- 
2.43.0


From 0a5a02f0a1a7bed282d62e180ab77f675eb7a94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:19 +0000
Subject: [PATCH 35/58] fix: TCP2: world group of joining processes: room for
 mappings of a larger previous world

newcomer overwrote the end of fromParent if more processes leave than join
---
 src/backend-tcp2.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 7eef485..f29533f 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2018,8 +2018,10 @@ Laik_Instance* laik_init_tcp2(int* argc, char*** argv)
     assert(world_size == old + added);
     world_size -= remove;
 
-    // create initial world group
-    Laik_Group* world = laik_create_group(instance, world_size);
+    // create initial world group: needs mappings from/to parent group of
+    // size <old>, which is larger if more processes leave than join
+    Laik_Group* world = laik_create_group(instance,
+                                          (old > world_size) ? old : world_size);
     world->size = world_size;
     if (old == 0) {
         // we are part of initial processes: no parent
-- 
2.43.0


From 70eb2381b38ce21cce3cc3cf8c60a70aeadf01d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:19 +0000
Subject: [PATCH 36/58] fix: TCP2: text transfer of elements larger than about
 30 bytes

fixed-size text buffers were overrun
---
 src/backend-tcp2.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index f29533f..bf937c0 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -777,8 +777,7 @@ void got_data(InstData* d, int lid, char* msg)
         while(msg[i] && (msg[i] == ' ')) i++;
     }
 
-    char data_in[100];
-    assert(len < 100);
+    char data_in[len];
     int l = 0;
 
     // parse hex bytes
@@ -2090,7 +2089,7 @@ Laik_Instance* laik_init_tcp2(int* argc, char*** argv)
 static
 void send_data(int n, int dims, Laik_Index* idx, int toLID, void* p, int s)
 {
-    char str[100];
+    char str[150 + 3 * s]; // 3 characters per byte
     int o = 0;
     o += sprintf(str, "data %d (%d:%s)", s, n, istr(dims, idx));
     for(int i = 0; i < s; i++) {
-- 
2.43.0


From bacd46b3e9fedd05880e094968d69790410f8135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:19 +0000
Subject: [PATCH 37/58] fix: TCP2: repeated requests to remove the same process

assertion in resize
---
 src/backend-tcp2.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index bf937c0..5ed807a 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2656,6 +2656,8 @@ Laik_Group* tcp2_resize(Laik_ResizeRequests* resizeReqs)
             else {
                 Peer* peer = (Peer*) req->backend_data;
                 laik_log(1, "TCP2 resize: remove process '%s'", peer->location);
+                // may be requested multiple times
+                if (peer->state == PS_InResizeRemove) continue;
                 // expected to be active
                 assert(peer->state == PS_InResize);
                 peer->state = PS_InResizeRemove;
-- 
2.43.0


From 977d84063380e92667a22b7505086ed2e509d758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:19 +0000
Subject: [PATCH 38/58] fix: TCP2: replay queued requests only once, ignore
 further requests on the connection

second pending request ended in an assertion; request replayed with freed text
---
 src/backend-tcp2.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 5ed807a..5a8886a 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -842,7 +842,10 @@ void got_register(InstData* d, int fd, int lid, char* msg)
     if ((d->mystate != PS_InStartup) &&
         (d->mystate != PS_InResize1)) {
         // after startup: process later in resize()
-        assert(d->fds[fd].cmd == 0);
+        if (d->fds[fd].cmd) {
+            laik_log(LAIK_LL_Warning, "ignoring '%s', other request pending", msg);
+            return;
+        }
 
         d->fds[fd].state = PS_RegReceived;
         d->fds[fd].cmd = strdup(msg);
@@ -963,7 +966,10 @@ void got_cutoff(InstData* d, int fd, char* msg)
 
     if (instance == 0) {
         // no instance yet to queue remove requests, need to replay
-        assert(d->fds[fd].cmd == 0);
+        if (d->fds[fd].cmd) {
+            laik_log(LAIK_LL_Warning, "ignoring '%s', other request pending", msg);
+            return;
+        }
 
         d->fds[fd].state = PS_CutoffReceived;
         d->fds[fd].cmd = strdup(msg);
@@ -2489,6 +2495,7 @@ void tcp2_make_progress()
                 got_cutoff(d, fd, d->fds[fd].cmd);
                 free(d->fds[fd].cmd);
                 d->fds[fd].cmd = 0;
+                d->fds[fd].state = PS_Unknown; // replay only once
                 break;
             default:
                 break;
-- 
2.43.0


From db07367585779a5d9f2ab32eb7221f7bf861edda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:19 +0000
Subject: [PATCH 39/58] fix: TCP2: connections closed by clients

receive buffer used after quit; join requests of already closed connections processed; write errors to clients fatal
---
 src/backend-tcp2.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 5a8886a..1e5863e 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -477,6 +477,8 @@ void rm_rfd(InstData* d, int fd)
     d->fds[fd].state = PS_Invalid;
     free(d->fds[fd].rbuf);
     d->fds[fd].rbuf = 0;
+    free(d->fds[fd].cmd);
+    d->fds[fd].cmd = 0;
 }
 
 // run event loop until an event handler asks to exit
@@ -660,8 +662,9 @@ void send_cmd(InstData* d, int lid, char* cmd)
 
     if (res < 0) {
         int e = errno;
-        laik_log(LAIK_LL_Panic, "TCP2 write error on FD %d: %s\n",
-                 fd, strerror(e));
+        // not fatal if connection to external client (without LID) is broken
+        laik_log((lid >= 0) ? LAIK_LL_Panic : LAIK_LL_Warning,
+                 "TCP2 write error on FD %d: %s\n", fd, strerror(e));
     }
 }
 
@@ -1113,7 +1116,7 @@ void got_status(InstData* d, int fd, int lid)
                 get_statestring(d->fds[i].state));
         send_cmd(d, lid, msg);
         if (d->fds[i].cmd) {
-            sprintf(msg, "#        queued for processing: '%s'", d->fds[i].cmd);
+            sprintf(msg, "#        queued for processing: '%.100s'", d->fds[i].cmd);
             send_cmd(d, lid, msg);
         }
     }
@@ -1576,7 +1579,7 @@ void process_rbuf(InstData* d, int fd)
 
         if (rbuf[pos2] == 4) { // Ctrl+D: same as "quit"
             got_cmd(d, fd, "quit", 5);
-            pos1 = pos2+1;
+            return; // connection closed, receive buffer freed
         }
         if (rbuf[pos2] == 13) {
             // change CR to whitespace (sent by telnet)
@@ -1585,6 +1588,7 @@ void process_rbuf(InstData* d, int fd)
         if (rbuf[pos2] == '\n') {
             rbuf[pos2] = 0;
             got_cmd(d, fd, rbuf + pos1, pos2 - pos1);
+            if (fds->rbuf == 0) return; // connection closed by "quit" command
             pos1 = pos2+1;
         }
         pos2++;
@@ -1626,6 +1630,7 @@ void got_bytes(InstData* d, int fd)
             rbuf[used] = '\n';
             d->fds[fd].rbuf_used++;
             process_rbuf(d, fd);
+            if (d->fds[fd].cb == 0) return; // already closed by "quit" command
         }
 
         int lid = d->fds[fd].lid;
@@ -2650,9 +2655,9 @@ Laik_Group* tcp2_resize(Laik_ResizeRequests* resizeReqs)
                 FDState* fds = (FDState*) req->backend_data;
                 int fd = fds - d->fds;
                 assert(&(d->fds[fd]) == fds);
-                assert(fds->state == PS_RegReceived2);
+                // process may have closed connection before being accepted
+                if ((fds->state != PS_RegReceived2) || (fds->cmd == 0)) continue;
                 assert(fds->lid < 0);
-                assert(fds->cmd);
 
                 laik_log(1, "TCP2 resize: replay join req '%s' from FD %d",
                         fds->cmd, fd);
-- 
2.43.0


From ffdc5b770a59fe26c9ec48d53e5e1ff60058caeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:19 +0000
Subject: [PATCH 40/58] fix: TCP2: transfer keys and values of key-value stores
 as arbitrary bytes

entries were sent as text with blanks as separators and limited lengths, removals as '(null)'
---
 src/backend-tcp2.c | 89 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 69 insertions(+), 20 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 1e5863e..55bceb8 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1049,7 +1049,7 @@ void got_help(InstData* d, int fd, int lid)
     send_cmd(d, lid, "#  id <id> <loc> <host> <port> <flags> : announce location id info");
     send_cmd(d, lid, "#  kvs allow <name>             : allow to send changes for KVS");
     send_cmd(d, lid, "#  kvs changes <count>          : announce number of changes for KVS");
-    send_cmd(d, lid, "#  kvs data <key> <value>       : send changed KVS entry");
+    send_cmd(d, lid, "#  kvs data <hexkey> [<hexval>] : send changed KVS entry");
     send_cmd(d, lid, "#  myid <id>                    : identify your location id");
     send_cmd(d, lid, "#  ok                           : positive response to a request");
     send_cmd(d, lid, "#  phase <phase> <epoch>        : announce current phase/epoch");
@@ -1324,12 +1324,12 @@ void got_kvs_allow(InstData* d, int lid, char* msg)
         return;
     }
 
-    char cmd[21];
-    char name[30];
-    if (sscanf(msg, "%20s %29s", cmd, name) < 2) {
+    char* name = strchr(msg, ' ');
+    if (name == 0) {
         laik_log(LAIK_LL_Warning, "cannot parse 'kvs allow' command '%s'; ignoring", msg);
         return;
     }
+    name++;
 
     laik_log(1, "TCP2 allowed to send changes for KVS '%s'", name);
     assert(d->kvs_name == 0);
@@ -1355,23 +1355,59 @@ void got_kvs_changes(InstData* d, int lid, char* msg)
         d->exit = 1;
 }
 
+// decode hex digits at <*pmsg> in-place until next blank or end of string
+// returns number of decoded bytes (-1 if not valid), forwards <*pmsg> to next word
+static
+int decode_hex(char** pmsg)
+{
+    char* s = *pmsg;
+    char* out = s;
+    int digits = 0, v = 0;
+    for(; *s && (*s != ' '); s++) {
+        int n;
+        if ((*s >= '0') && (*s <= '9')) n = *s - '0';
+        else if ((*s >= 'a') && (*s <= 'f')) n = *s - 'a' + 10;
+        else return -1;
+        v = 16 * v + n;
+        digits++;
+        if ((digits & 1) == 0) {
+            *out++ = (char) v;
+            v = 0;
+        }
+    }
+    while(*s == ' ') s++;
+    *pmsg = s;
+    return (digits & 1) ? -1 : digits / 2;
+}
+
 void got_kvs_data(InstData* d, int lid, char* msg)
 {
-    char cmd[21], key[31], value[101];
-    if (sscanf(msg, "%20s %30s %100[^\n]", cmd, key, value) < 3) {
+    // data <key> [<value>]: bytes in hex, no value if key got removed
+
+    char* pos = strchr(msg, ' ');
+    while(pos && (*pos == ' ')) pos++;
+    char* key = pos;
+    int klen = pos ? decode_hex(&pos) : -1;
+    char* value = pos;
+    int vlen = (klen > 0) ? decode_hex(&pos) : -1;
+    if ((vlen < 0) || (key[klen-1] != 0)) {
         laik_log(LAIK_LL_Warning, "cannot parse kvs data command '%s'; ignoring", msg);
         return;
     }
 
-    laik_log(1, "TCP2 got KVS data from LID %d for key '%s': '%s'", lid, key, value);
+    laik_log(1, "TCP2 got KVS data from LID %d for key '%s' (size %d)", lid, key, vlen);
     assert(d->kvs != 0);
     assert(d->kvs_changes > 0);
     assert(d->kvs_received < d->kvs_changes);
 
-    Laik_KVS_Entry* e = laik_kvs_sets(d->kvs, key, value);
+    if (vlen > 0)
+        laik_kvs_set(d->kvs, key, vlen, value);
+    else
+        laik_kvs_remove(d->kvs, key);
     // simply mark it as updated
     //  this may send unneeded updates, but we do not use change journal in TCP2
-    e->updated = true;
+    Laik_KVS_Entry* e = laik_kvs_entry(d->kvs, key);
+    if (e) e->updated = true;
 
     d->kvs_received++;
     if (d->kvs_received == d->kvs_changes)
@@ -2394,9 +2430,26 @@ void tcp2_exec(Laik_ActionSeq* as)
     }
 }
 
+// send KVS entry <e> as hex bytes, allowing for arbitrary keys/values
+static
+void send_kvs_entry(InstData* d, int toLID, Laik_KVS_Entry* e)
+{
+    int klen = strlen(e->key) + 1;
+    int vlen = e->value ? (int) e->vlen : 0;
+    char msg[20 + 2 * (klen + vlen)];
+    int o = sprintf(msg, "kvs data ");
+    for(int i = 0; i < klen; i++)
+        o += sprintf(msg + o, "%02x", (unsigned char) e->key[i]);
+    msg[o++] = ' ';
+    for(int i = 0; i < vlen; i++)
+        o += sprintf(msg + o, "%02x", (unsigned char) e->value[i]);
+    strcpy(msg + o, "\n");
+    send_cmd(d, toLID, msg);
+}
+
 void tcp2_sync(Laik_KVStore* kvs)
 {
-    char msg[100];
+    char msg[50 + strlen(kvs->name)];
     InstData* d = (InstData*)instance->backend_data;
 
     int count = 0;
@@ -2424,9 +2477,7 @@ void tcp2_sync(Laik_KVStore* kvs)
         send_cmd(d, 0, msg);
         for(unsigned int i = 0; i < kvs->used; i++) {
             if (!kvs->entry[i].updated) continue;
-            sprintf(msg, "kvs data %s %s",
-                    kvs->entry[i].key, kvs->entry[i].value);
-            send_cmd(d, 0, msg);
+            send_kvs_entry(d, 0, &(kvs->entry[i]));
         }
         // all changes sent, remove own permission
         // (needs to be done here, as we may receive next allowance
@@ -2465,14 +2516,12 @@ void tcp2_sync(Laik_KVStore* kvs)
     }
     laik_log(1, "TCP2 with %d merged changes", count);
     sprintf(msg, "kvs changes %d", count);
-    for(int lid = 1; lid <= d->maxid; lid++)
+    for(int lid = 1; lid <= d->maxid; lid++) {
         send_cmd(d, lid, msg);
-    for(unsigned int i = 0; i < kvs->used; i++) {
-        if (!kvs->entry[i].updated) continue;
-        sprintf(msg, "kvs data %s %s",
-                kvs->entry[i].key, kvs->entry[i].value);
-        for(int lid = 1; lid <= d->maxid; lid++)
-            send_cmd(d, lid, msg);
+        for(unsigned int i = 0; i < kvs->used; i++) {
+            if (!kvs->entry[i].updated) continue;
+            send_kvs_entry(d, lid, &(kvs->entry[i]));
+        }
     }
     laik_log(1, "TCP2 synced %d changes for KVS %s",
             count, kvs->name);
-- 
2.43.0


From 357c392f11846ad7d047f964dfc4e4cc1751ff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:19 +0000
Subject: [PATCH 41/58] fix: TCP2: synchronise key-value stores only among
 members of the world

master waited for processes which already left
---
 src/backend-tcp2.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 55bceb8..1cf3031 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2447,8 +2447,10 @@ void send_kvs_entry(InstData* d, int toLID, Laik_KVS_Entry* e)
     send_cmd(d, toLID, msg);
 }
 
+// synchronisation among all processes in current world
 void tcp2_sync(Laik_KVStore* kvs)
 {
+    Laik_Group* world = instance->world;
     char msg[50 + strlen(kvs->name)];
     InstData* d = (InstData*)instance->backend_data;
 
@@ -2497,7 +2499,9 @@ void tcp2_sync(Laik_KVStore* kvs)
 
     // master
 
-    for(int lid = 1; lid <= d->maxid; lid++) {
+    for(int id = 0; id < world->size; id++) {
+        int lid = world->locationid[id];
+        if (lid == 0) continue;
         sprintf(msg, "kvs allow %s", kvs->name);
         send_cmd(d, lid, msg);
 
@@ -2516,7 +2520,9 @@ void tcp2_sync(Laik_KVStore* kvs)
     }
     laik_log(1, "TCP2 with %d merged changes", count);
     sprintf(msg, "kvs changes %d", count);
-    for(int lid = 1; lid <= d->maxid; lid++) {
+    for(int id = 0; id < world->size; id++) {
+        int lid = world->locationid[id];
+        if (lid == 0) continue;
         send_cmd(d, lid, msg);
         for(unsigned int i = 0; i < kvs->used; i++) {
             if (!kvs->entry[i].updated) continue;
-- 
2.43.0


From 2593977c655178b9d0a1dbbaf3d574b4864c9b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:19 +0000
Subject: [PATCH 42/58] fix: synchronise locations again after processes joined

location array was not enlarged, and own location not sent to new processes
---
 include/laik/core-internal.h |  1 +
 src/core.c                   | 20 +++++++++++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index 7b3d204..81a5a06 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -77,6 +77,7 @@ struct _Laik_Instance {
     // direct access to synchronized location strings (array of size <size>)
     // null if not synced yet; for removed processes entries are null
     char** location;
+    int location_size; // number of entries in location array
 
     // KV stores for LAIK objects
     Laik_KVStore* spaceStore;
diff --git a/src/core.c b/src/core.c
index 4150c81..3e7e0c9 100644
--- a/src/core.c
+++ b/src/core.c
@@ -219,6 +219,7 @@ Laik_Instance* laik_new_instance(const Laik_Backend* b,
 
     instance->locationStore = 0;
     instance->location = 0; // set at location sync
+    instance->location_size = 0;
 
     instance->spaceStore = 0;
 
@@ -670,16 +671,21 @@ void laik_sync_location(Laik_Instance *instance)
 {
     if (instance->locationStore == NULL) {
         instance->locationStore = laik_kvs_new("location", instance);
-        instance->location = (char**) malloc((unsigned)instance->locations * sizeof(char*));
-        assert(instance->location != 0);
-        for(int i = 0; i < instance->locations; i++)
-            instance->location[i] = 0;
-
         // register function to update direct access to location
         laik_kvs_reg_callbacks(instance->locationStore,
                                update_location, update_location, remove_location);
     }
 
+    // number of locations may have grown since last sync
+    if (instance->location_size < instance->locations) {
+        instance->location = (char**) realloc(instance->location,
+                                              (unsigned)instance->locations * sizeof(char*));
+        assert(instance->location != 0);
+        for(int i = instance->location_size; i < instance->locations; i++)
+            instance->location[i] = 0;
+        instance->location_size = instance->locations;
+    }
+
     Laik_Group* world = laik_world(instance);
     char* mylocation = laik_mylocation(instance);
     int mylocationid = laik_group_locationid(world, laik_myid(world));
@@ -687,6 +693,8 @@ void laik_sync_location(Laik_Instance *instance)
     instance->location[mylocationid] = mylocation;
 
     char* myKey = locationkey(mylocationid);
+    // always propagate, as processes may have joined since last sync
+    laik_kvs_remove(instance->locationStore, myKey);
     laik_kvs_sets(instance->locationStore, myKey, mylocation);
     laik_kvs_sync(instance->locationStore);
 }
@@ -699,6 +707,8 @@ char* laik_group_location(Laik_Group *group, int id)
 
     int lid = laik_group_locationid(group, id);
     assert(lid >= 0 && lid < group->inst->locations);
+    if (lid >= group->inst->location_size)
+        return NULL; // not synchronized since growth
     return group->inst->location[lid];
 }
 
-- 
2.43.0


From 5caa55340426ce85ce964845d113d9eff47b11f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:04 +0000
Subject: [PATCH 43/58] fix: TCP2: ignore announcement of an unknown ID instead
 of ending the process

---
 src/backend-tcp2.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 1cf3031..4f75e33 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -945,15 +945,17 @@ void got_myid(InstData* d, int fd, int lid, char* msg)
         return;
     }
 
+    // must already be known, announced by master
+    if ((peerid < 0) || (peerid > d->maxid) || (d->peer[peerid].location == 0)) {
+        laik_log(LAIK_LL_Warning, "got ID %d from peer which is not known; ignoring", peerid);
+        return;
+    }
+
     lid = peerid;
-    assert((lid >= 0) && (lid < MAX_PEERS));
-    assert(lid <= d->maxid);
+    assert(lid < MAX_PEERS);
     d->peer[lid].fd = fd;
     assert(fd >= 0);
     d->fds[fd].lid = lid;
-
-    // must already be known, announced by master
-    assert(d->peer[lid].location != 0);
     assert(d->peer[lid].host != 0);
     assert(d->peer[lid].port >= 0);
 
-- 
2.43.0


From 4eced9942f9c0c197eafbabbad4848c52f6bdbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:05 +0000
Subject: [PATCH 44/58] fix: TCP2: do not accept binary data from unknown
 senders

---
 src/backend-tcp2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 4f75e33..75579b5 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1599,8 +1599,8 @@ void process_rbuf(InstData* d, int fd)
             pos2 = pos1;
             continue;
         }
-        // start of bin mode?
-        if (rbuf[pos1] == 'B') {
+        // start of bin mode? Not accepted from unknown senders
+        if ((rbuf[pos1] == 'B') && (fds->lid >= 0)) {
             // 3 bytes header: 'B' + 2 bytes count (up to 64k of binary)
             if (pos1 + 2 >= used) {
                 // not enough bytes to cover header: stop
-- 
2.43.0


From 52c1019192fbee3c0bea1667332639ccb4b32d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:05 +0000
Subject: [PATCH 45/58] fix: TCP2: close connection of a client sending an
 over-long command

---
 src/backend-tcp2.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 75579b5..a9ad53d 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1648,6 +1648,12 @@ void got_bytes(InstData* d, int fd)
 
     if (used == RBUF_LEN) {
         // buffer not large enough for even 1 command: should not happen
+        if (d->fds[fd].lid < 0) {
+            laik_log(LAIK_LL_Warning, "TCP2 command too long from FD %d; closing", fd);
+            close(fd);
+            rm_rfd(d, fd);
+            return;
+        }
         laik_panic("TCP2 receive buffer too small for 1 command");
         exit(1);
     }
-- 
2.43.0


From 3f1e6e8ecd9f8290aa5d8190b42bbc4b5c702238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:05 +0000
Subject: [PATCH 46/58] fix: TCP2: skip removal requests for already removed
 processes

---
 src/backend-tcp2.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index a9ad53d..8e3b3f4 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2731,8 +2731,9 @@ Laik_Group* tcp2_resize(Laik_ResizeRequests* resizeReqs)
             else {
                 Peer* peer = (Peer*) req->backend_data;
                 laik_log(1, "TCP2 resize: remove process '%s'", peer->location);
-                // may be requested multiple times
-                if (peer->state == PS_InResizeRemove) continue;
+                // may be requested multiple times, also after being removed
+                if ((peer->state == PS_InResizeRemove) ||
+                    (peer->state == PS_Dead)) continue;
                 // expected to be active
                 assert(peer->state == PS_InResize);
                 peer->state = PS_InResizeRemove;
-- 
2.43.0


From ad812d5634bc162c51540ad6978085eeb9d3dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:05 +0000
Subject: [PATCH 47/58] fix: container must not use a freed reservation; free
 all of it

---
 src/data.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/data.c b/src/data.c
index 961b82e..3d2e338 100644
--- a/src/data.c
+++ b/src/data.c
@@ -944,6 +944,8 @@ void laik_reservation_free(Laik_Reservation* r)
 {
     for(int i = 0; i < r->count; i++) {
         assert(r->entry[i].mList != 0);
+        if (r->data->activeMappings == r->entry[i].mList)
+            r->data->activeMappings = 0; // memory of container is gone
         free(r->entry[i].mList);
         r->entry[i].mList = 0;
     }
@@ -960,6 +962,12 @@ void laik_reservation_free(Laik_Reservation* r)
     laik_log(1, "reservation '%s' (data '%s'): freed %llu bytes\n",
                  r->name, r->data->name, (unsigned long long) bytesFreed);
                 
+    // the container must not use memory from this reservation any more
+    if (r->data->activeReservation == r)
+        r->data->activeReservation = 0;
+
+    free(r->entry);
+    free(r->name);
     free(r);
 }
 
-- 
2.43.0


From 16337a31d0bf2a8e31172af37c187b700e92b75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:06 +0000
Subject: [PATCH 48/58] fix: description of a layout with many mappings
 exceeded its buffer

---
 src/layout_lex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/layout_lex.c b/src/layout_lex.c
index 0285dbc..511ed08 100644
--- a/src/layout_lex.c
+++ b/src/layout_lex.c
@@ -123,6 +123,11 @@ char* describe_lex(Laik_Layout* l)
     o = sprintf(s, "lex (%dd, %d maps, strides ",
                 l->dims, l->map_count);
     for(int i = 0; i < l->map_count; i++) {
+        if (o > 120) {
+            // not enough space for another entry
+            o += sprintf(s+o, ", ...");
+            break;
+        }
         Lex_Entry* e = &(ll->e[i]);
         o += sprintf(s+o, "%s%llu/%llu/%llu",
              (i == 0) ? "":", ",
-- 
2.43.0


From 27d6cdfa4def03db00845a6b888df8a42a1ef935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:11 +0000
Subject: [PATCH 49/58] fix: free transition of a switch, and names of
 transitions and action sequences

---
 src/action.c | 1 +
 src/data.c   | 3 +++
 src/space.c  | 1 +
 3 files changed, 5 insertions(+)

diff --git a/src/action.c b/src/action.c
index af15306..9088a0d 100644
--- a/src/action.c
+++ b/src/action.c
@@ -112,6 +112,7 @@ void laik_aseq_free(Laik_ActionSeq* as)
     free(as->action);
     free(as->newAction);
 
+    free(as->name);
     free(as);
 }
 
diff --git a/src/data.c b/src/data.c
index 3d2e338..140e3f5 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1338,6 +1338,9 @@ void laik_switchto_partitioning(Laik_Data* d,
 
     doTransition(d, t, 0, d->activeMappings, toList);
 
+    // transition was only calculated for this switch
+    laik_free_transition(t);
+
     // if we migrated to common group before, migrate back
     if (commonGroup) {
         laik_partitioning_migrate(d->activePartitioning, fromGroup);
diff --git a/src/space.c b/src/space.c
index ae2903d..744e457 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1667,6 +1667,7 @@ void laik_free_transition(Laik_Transition* t)
     if (!t) return;
 
     laik_log(1, "free transition '%s'", t->name);
+    free(t->name);
     free(t);
 }
 
-- 
2.43.0


From 7cb0b265b2b399db40bd779320425cff58111589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:11 +0000
Subject: [PATCH 50/58] fix: remove freed container from instance, and free its
 memory

---
 include/laik/core-internal.h |  1 +
 src/core.c                   | 14 ++++++++++++++
 src/data.c                   | 12 +++++++++++-
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index 81a5a06..f6afce0 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -118,6 +118,7 @@ void laik_addSpaceForInstance(Laik_Instance* inst, Laik_Space* s);
 void laik_removeSpaceFromInstance(Laik_Instance* inst, Laik_Space* s);
 
 void laik_addDataForInstance(Laik_Instance* inst, Laik_Data* d);
+void laik_removeDataFromInstance(Laik_Instance* inst, Laik_Data* d);
 
 // synchronize location strings via KVS among processes in current world
 void laik_sync_location(Laik_Instance *instance);
diff --git a/src/core.c b/src/core.c
index 3e7e0c9..1ae87b0 100644
--- a/src/core.c
+++ b/src/core.c
@@ -282,6 +282,20 @@ void laik_addDataForInstance(Laik_Instance* inst, Laik_Data* d)
     inst->data_count++;
 }
 
+void laik_removeDataFromInstance(Laik_Instance* inst, Laik_Data* d)
+{
+    for(int i = 0; i < inst->data_count; i++) {
+        if (inst->data[i] != d) continue;
+
+        // keep order of remaining containers
+        inst->data_count--;
+        for(; i < inst->data_count; i++)
+            inst->data[i] = inst->data[i+1];
+        return;
+    }
+    assert(0); // not found, should not happen
+}
+
 
 // create a group to be used in this LAIK instance
 Laik_Group* laik_create_group(Laik_Instance* i, int maxsize)
diff --git a/src/data.c b/src/data.c
index 140e3f5..b947ed7 100644
--- a/src/data.c
+++ b/src/data.c
@@ -214,7 +214,9 @@ void laik_data_set_name(Laik_Data* d, char* n)
 {
     laik_log(1, "data '%s' renamed to '%s'", d->name, n);
 
-    d->name = n;
+    char* oldname = d->name;
+    d->name = strdup(n);
+    free(oldname);
 }
 
 // get space used for data
@@ -1637,6 +1639,14 @@ void laik_free(Laik_Data* d)
 {
     // TODO: free space, partitionings
 
+    laik_removeDataFromInstance(d->space->inst, d);
+
+    // memory from a reservation is freed with the reservation
+    if (d->activeMappings && (d->activeMappings->res == 0))
+        freeMappingList(d->activeMappings, d->stat);
+
+    free(d->stat);
+    free(d->name);
     free(d);
 }
 
-- 
2.43.0


From 18c65eb434e52362e8052c7f5c520f4a4ac0cccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:12 +0000
Subject: [PATCH 51/58] fix: free all memory of a partitioning

---
 src/partitioning.c | 7 ++++++-
 src/rangelist.c    | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/partitioning.c b/src/partitioning.c
index 1f33d5c..32a1a16 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -310,9 +310,12 @@ void laik_free_partitioning(Laik_Partitioning* p)
 {
     RangeList_Entry* e = p->rangeList;
     while(e) {
+        RangeList_Entry* next = e->next;
         laik_rangelist_free(e->ranges);
-        e = e->next;
+        free(e);
+        e = next;
     }
+    free(p->name);
     free(p);
 }
 
@@ -756,5 +759,7 @@ Laik_TaskRange* laik_my_range_3d(Laik_Partitioning* p, int n,
 // give an access phase a name, for debug output
 void laik_partitioning_set_name(Laik_Partitioning* p, char* n)
 {
+    char* oldname = p->name;
     p->name = strdup(n);
+    free(oldname);
 }
diff --git a/src/rangelist.c b/src/rangelist.c
index b22a1aa..a64af45 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -57,6 +57,7 @@ void laik_rangelist_free(Laik_RangeList* list)
     free(list->tss1d);
     free(list->off);
     free(list->map_off);
+    free(list);
 }
 
 // does this cover the full space with one range for each process?
-- 
2.43.0


From 35fafc5987963f3586c15f19109cb47ee63981aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:12 +0000
Subject: [PATCH 52/58] fix: enough space for names with large numbers

---
 src/action.c       | 2 +-
 src/data.c         | 4 ++--
 src/partitioning.c | 3 ++-
 src/space.c        | 4 ++--
 src/type.c         | 2 +-
 5 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/action.c b/src/action.c
index 9088a0d..1ff5984 100644
--- a/src/action.c
+++ b/src/action.c
@@ -36,7 +36,7 @@ Laik_ActionSeq* laik_aseq_new(Laik_Instance *inst)
         exit(1); // not actually needed, laik_panic never returns
     }
     as->id = aseq_id++;
-    as->name = strdup("aseq-0     ");
+    as->name = strdup("aseq-0         ");
     sprintf(as->name, "aseq-%d", as->id);
 
     as->inst = inst;
diff --git a/src/data.c b/src/data.c
index b947ed7..a831cd2 100644
--- a/src/data.c
+++ b/src/data.c
@@ -165,7 +165,7 @@ Laik_Data* laik_new_data(Laik_Space* space, Laik_Type* type)
     }
 
     d->id = data_id++;
-    d->name = strdup("data-0     ");
+    d->name = strdup("data-0         ");
     sprintf(d->name, "data-%d", d->id);
 
     d->space = space;
@@ -902,7 +902,7 @@ Laik_Reservation* laik_reservation_new(Laik_Data* d)
     }
 
     r->id = res_id++;
-    r->name = strdup("res-0     ");
+    r->name = strdup("res-0         ");
     sprintf(r->name, "res-%d", r->id);
 
     r->data = d;
diff --git a/src/partitioning.c b/src/partitioning.c
index 32a1a16..97ba91c 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -262,7 +262,8 @@ Laik_Partitioning* laik_partitioning_new(char* name,
     }
 
     p->id = partitioning_id++;
-    p->name = strdup("            ");
+    // space for at most 10 chars of given name, "-", and a number
+    p->name = strdup("                       ");
     sprintf(p->name, "%.10s-%d", name ? name : "part", p->id);
 
     p->group = g;
diff --git a/src/space.c b/src/space.c
index 744e457..82f7e22 100644
--- a/src/space.c
+++ b/src/space.c
@@ -336,7 +336,7 @@ Laik_Space* laik_new_space(Laik_Instance* inst)
     }
 
     space->id = space_id++;
-    space->name = strdup("space-0     ");
+    space->name = strdup("space-0         ");
     sprintf(space->name, "space-%d", space->id);
 
     space->inst = inst;
@@ -1580,7 +1580,7 @@ do_calc_transition(Laik_Space* space,
     }
 
     t->id = trans_id++;
-    t->name = strdup("trans-0     ");
+    t->name = strdup("trans-0         ");
     sprintf(t->name, "trans-%d", t->id);
 
     t->flags = tflags;
diff --git a/src/type.c b/src/type.c
index 8775c24..50bb7f1 100644
--- a/src/type.c
+++ b/src/type.c
@@ -643,7 +643,7 @@ Laik_Type* laik_type_new(char* name, Laik_TypeKind kind, int size,
     if (name)
         t->name = name;
     else {
-        t->name = strdup("type-0     ");
+        t->name = strdup("type-0         ");
         sprintf(t->name, "type-%d", t->id);
     }
 
-- 
2.43.0


From 755dffc013a9e97b2578a5aa666f7b4c3534747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:36 +0000
Subject: [PATCH 53/58] fix: appending to log messages keeps what is in the
 buffer when growing it

---
 src/logging.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index 14e49a1..746b093 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -223,7 +223,7 @@ void log_append(const char *format, va_list ap)
     // does it fit into buffer? (len is without terminating zero byte)
     if (len >= left) {
         int size = 2 * current_logSize;
-        if (size < len + 1) size = len + 1;
+        if (size < current_logPos + len + 1) size = current_logPos + len + 1;
         current_logBuffer = realloc(current_logBuffer, size);
         current_logSize = size;
         // printf("Enlarging log buffer to %d bytes ...\n", size);
-- 
2.43.0


From e951d1b910a4ea66a2a6299ed7435c3e7e2275f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:37 +0000
Subject: [PATCH 54/58] fix: long words or indentation overflowed the line
 buffer of log messages

---
 src/logging.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 746b093..6aa1ec0 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -279,8 +279,8 @@ void log_flush()
     counter++;
 
 #define LINE_LEN 100
-    // enough for prefix plus one line of log message
-    static char buf2[150 + LINE_LEN];
+    // enough for prefix (the location is cut)
+    static char buf2[150];
     int off1 = 0, off, off2;
 
     char* buf1 = current_logBuffer;
@@ -303,7 +303,7 @@ void log_flush()
         line_counter++;
         off2 = sprintf(buf2, "%s ", (line_counter == 1) ? "==" : "..");
         if (laik_loginst == 0) {
-            off2 += sprintf(buf2+off2, "%-7s: ",
+            off2 += sprintf(buf2+off2, "%-7.80s: ",
                             laik_log_mylocation ? laik_log_mylocation : "");
 
         }
@@ -330,8 +330,7 @@ void log_flush()
         }
 
         // indent: add 4 spaces if this is continuation line
-        off2 += sprintf(buf2+off2, "%*s",
-                        at_newline ? spaces : spaces + 4, "");
+        int indent = at_newline ? spaces : spaces + 4;
 
         at_newline = false;
         off = off1;
@@ -354,13 +353,13 @@ void log_flush()
             off++;
         }
         if (buf1[off]) buf1[off++] = 0;
-        off2 += sprintf(buf2+off2, "%s\n", buf1 + off1);
-        off1 = off;
 
-        assert(off2 < 150 + LINE_LEN);
+        assert(off2 < 150);
 
+        // lines can be longer than LINE_LEN if there is no space to break at
         // TODO: allow to go to debug file
-        fprintf(stderr, "%s", buf2);
+        fprintf(stderr, "%s%*s%s\n", buf2, indent, "", buf1 + off1);
+        off1 = off;
     }
     current_logPos = 0;
 
-- 
2.43.0


From af97c534ff00fc3c5a14cafb1c28c7a78f2fe22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:37 +0000
Subject: [PATCH 55/58] fix: measure total time when profiling, and times of
 KVS syncs

---
 src/data.c | 30 ++++++++++++++++++++++++++++++
 src/kvs.c  | 10 ++++++++++
 2 files changed, 40 insertions(+)

diff --git a/src/data.c b/src/data.c
index a831cd2..3b779f0 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1203,6 +1203,23 @@ void laik_reservation_alloc(Laik_Reservation* res)
     }
 }
 
+// profiling: measure time spent in LAIK
+
+static
+void total_start(Laik_Instance* inst)
+{
+    if (inst->profiling->do_profiling)
+        inst->profiling->timer_total = laik_wtime();
+}
+
+static
+void total_stop(Laik_Instance* inst)
+{
+    if (inst->profiling->do_profiling)
+        inst->profiling->time_total += laik_wtime() - inst->profiling->timer_total;
+}
+
+
 // execute a previously calculated transition on a data container
 void laik_exec_transition(Laik_Data* d, Laik_Transition* t)
 {
@@ -1218,12 +1235,16 @@ void laik_exec_transition(Laik_Data* d, Laik_Transition* t)
         exit(1);
     }
 
+    total_start(d->space->inst);
+
     Laik_MappingList* toList = prepareMaps(d, t->toPartitioning);
     doTransition(d, t, 0, d->activeMappings, toList);
 
     // set new mapping/partitioning active
     d->activePartitioning = t->toPartitioning;
     d->activeMappings = toList;
+
+    total_stop(d->space->inst);
 }
 
 Laik_ActionSeq* laik_calc_actions(Laik_Data* d,
@@ -1285,6 +1306,8 @@ void laik_exec_actions(Laik_ActionSeq* as)
         exit(1);
     }
 
+    total_start(d->space->inst);
+
     Laik_MappingList* toList = prepareMaps(d, t->toPartitioning);
 
     if (tc->prepFromList && (tc->prepFromList != d->activeMappings)) {
@@ -1305,6 +1328,8 @@ void laik_exec_actions(Laik_ActionSeq* as)
     // set new mapping/partitioning active
     d->activePartitioning = t->toPartitioning;
     d->activeMappings = toList;
+
+    total_stop(d->space->inst);
 }
 
 
@@ -1313,6 +1338,9 @@ void laik_switchto_partitioning(Laik_Data* d,
                                 Laik_Partitioning* toP, Laik_DataFlow flow,
                                 Laik_ReductionOperation redOp)
 {
+    Laik_Instance* inst = d->space->inst;
+    total_start(inst);
+
     // calculate actions to be done for switching
 
     Laik_Group *toGroup = 0, *fromGroup = 0, *commonGroup = 0;
@@ -1352,6 +1380,8 @@ void laik_switchto_partitioning(Laik_Data* d,
     // set new mapping/partitioning active
     d->activePartitioning = toP;
     d->activeMappings = toList;
+
+    total_stop(inst);
 }
 
 
diff --git a/src/kvs.c b/src/kvs.c
index 5749c10..33ebda3 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -481,10 +481,20 @@ void laik_kvs_sync(Laik_KVStore* kvs)
 
     laik_log(1, "sync KVS '%s' (progagating %d/%d entries) ...",
              kvs->name, kvs->changes.offUsed / 2, kvs->used);
+    Laik_Profiling_Controller* prof = kvs->inst->profiling;
+    if (prof->do_profiling)
+        prof->timer_backend = laik_wtime();
+
     kvs->in_sync = true;
     (b->sync)(kvs);
     kvs->in_sync = false;
 
+    if (prof->do_profiling) {
+        double t = laik_wtime() - prof->timer_backend;
+        prof->time_backend += t;
+        prof->time_total += t;
+    }
+
     // all queued entries sent, remove
     laik_kvs_changes_set_size(&(kvs->changes), 0, 0);
 
-- 
2.43.0


From 64052cc0a4ec17e51384430213782bde12bb887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:37 +0000
Subject: [PATCH 56/58] fix: profiling file: reset user time, allow for files
 which cannot be opened

---
 src/profiling.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/profiling.c b/src/profiling.c
index 48502c4..9634203 100644
--- a/src/profiling.c
+++ b/src/profiling.c
@@ -185,10 +185,12 @@ void laik_enable_profiling_file(Laik_Instance* i, const char* filename)
     i->profiling->do_profiling = true;
     i->profiling->time_backend = 0.0;
     i->profiling->time_total = 0.0;
+    i->profiling->time_user = 0.0;
     snprintf(i->profiling->filename, MAX_FILENAME_LENGTH, "t%s.%s", i->guid, filename);
     i->profiling->profile_file = fopen(filename, "a+");
     if (i->profiling->profile_file == NULL) {
         laik_log(LAIK_LL_Error, "Unable to start file based profiling");
+        return;
     }
 
     fprintf((FILE*)i->profiling->profile_file, "======MEASUREMENT START AT: %lu======\n", 
@@ -249,7 +251,7 @@ void laik_close_profiling_file(Laik_Instance* i)
 // print arbitrary text to file in output-to-file mode
 void laik_profile_printf(const char* msg, ...)
 {
-    if (laik_profinst->profiling->profile_file) {
+    if (laik_profinst && laik_profinst->profiling->profile_file) {
         va_list args;
         va_start(args, msg);
         vfprintf((FILE*)laik_profinst->profiling->profile_file, msg, args);
-- 
2.43.0


From 4d39c7fcc11c4dbc14bb76862143056bff5b011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:37 +0000
Subject: [PATCH 57/58] fix: define laik_ext_load_agent_from_function as
 declared

---
 src/external.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external.c b/src/external.c
index e1f7645..9bee922 100644
--- a/src/external.c
+++ b/src/external.c
@@ -149,7 +149,7 @@ void laik_ext_load_agent_from_file (
  * @param  argv: arguments to pass to the agent
  * @retval None
  */
-void laik_ext_loadagent (
+void laik_ext_load_agent_from_function (
     Laik_Instance* instance,
     laik_agent_init init,
     int argc, 
-- 
2.43.0


From 11c7026aea2f2e05f6c0bbd15ad720006a704977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:37 +0000
Subject: [PATCH 58/58] fix: several external agents: keep all handles and
 report all failures

---
 src/external.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/external.c b/src/external.c
index 9bee922..2fff0e8 100644
--- a/src/external.c
+++ b/src/external.c
@@ -120,7 +120,7 @@ void laik_ext_load_agent_from_file (
     ctrl = instance->repart_ctrl;
 
     //ensure less than MAX_AGENT
-    assert(ctrl->num_agents <= MAX_AGENTS);
+    assert(ctrl->num_agents < MAX_AGENTS);
 
     handle = dlopen(path, RTLD_LAZY);
     if(!handle){
@@ -135,8 +135,8 @@ void laik_ext_load_agent_from_file (
     assert(agent);
 
     ctrl->agents[ctrl->num_agents] = agent;
-    ctrl->num_agents++;
     ctrl->handles[ctrl->num_agents] = handle;
+    ctrl->num_agents++;
     laik_log(LAIK_LL_Debug, "laik_ext_load_agent done ! L:2 \n");
 }
 
@@ -169,15 +169,15 @@ void laik_ext_load_agent_from_function (
     ctrl = instance->repart_ctrl;
 
     //ensure less than MAX_AGENT
-    assert(ctrl->num_agents <= MAX_AGENTS);
+    assert(ctrl->num_agents < MAX_AGENTS);
 
     agent = init(argc, argv);
 
     assert(agent);
 
     ctrl->agents[ctrl->num_agents] = agent;
-    ctrl->num_agents++;
     ctrl->handles[ctrl->num_agents] = NULL;
+    ctrl->num_agents++;
 }
 
 /** 
@@ -225,7 +225,6 @@ void laik_get_failed (
     int max_failed
 ){
 
-    (void) max_failed;
     Laik_RepartitionControl* ctrl;
     int i, n; //, count;
     assert(instance);    
@@ -233,7 +232,7 @@ void laik_get_failed (
     assert(ctrl);
     
 
-    //count = 0;
+    *num_failed = 0;
     for(i=0; i < ctrl -> num_agents; i++){
         Laik_Agent* agent = ctrl->agents[i];
 
@@ -252,7 +251,14 @@ void laik_get_failed (
             // (1) Get a list of node_uids
 
 
-            fta->getfail(num_failed, failed_ranks);
+            // append to the failures reported by other agents
+            if (*num_failed + n > max_failed) {
+                laik_panic("laik_get_failed: too many failed nodes");
+                exit(1);
+            }
+            int count = 0;
+            fta->getfail(&count, failed_ranks + *num_failed);
+            *num_failed += count;
 
             //printf("fta-> getfail: %d \n", *num_failed);
             for(int k = 0 ; k < *num_failed; k++ )
-- 
2.43.0

