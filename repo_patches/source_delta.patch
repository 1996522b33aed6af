From 60134e3c6a422eb2f4ebaaa8a3efe74b7b1ab9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 01/47] fix: lattice layout no longer loops forever when the
 second division attempt succeeds

---
 libraries/plumbing/setup_layout_generic.cpp | 6 ++++--
 libraries/plumbing/setup_layout_vector.cpp  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/setup_layout_generic.cpp b/libraries/plumbing/setup_layout_generic.cpp
index d541906..d6b0a25 100644
--- a/libraries/plumbing/setup_layout_generic.cpp
+++ b/libraries/plumbing/setup_layout_generic.cpp
@@ -72,8 +72,10 @@ void lattice_struct::setup_layout() {
 
     int mdir = 0;
     bool secondtime = false;
+    bool retry;
     do {
         // try the division a couple of times, if the 1st fails
+        retry = false;
 
         foralldir(j) if (ghosts[mdir] > ghosts[j]) mdir = j;
         // mdir is the direction where we do uneven division (if done)
@@ -132,7 +134,7 @@ void lattice_struct::setup_layout() {
         bool fail = false;
         foralldir(dir) if (nodesiz[dir] < 2) fail = true; // don't allow nodes of size 1
         if (fail && !secondtime) {
-            secondtime = true;
+            secondtime = retry = true;
             ghosts[mdir] =
                 (1ULL << 62); // this short-circuits direction mdir, some other taken next
         } else if (fail) {
@@ -141,7 +143,7 @@ void lattice_struct::setup_layout() {
             hila::finishrun();
         }
 
-    } while (secondtime);
+    } while (retry);
 
     // set up struct nodes variables
     nodes.number = hila::number_of_nodes();
diff --git a/libraries/plumbing/setup_layout_vector.cpp b/libraries/plumbing/setup_layout_vector.cpp
index 1cfcf87..29225d8 100644
--- a/libraries/plumbing/setup_layout_vector.cpp
+++ b/libraries/plumbing/setup_layout_vector.cpp
@@ -98,8 +98,10 @@ void lattice_struct::setup_layout() {
 
     int gdir;
     bool secondtime = false;
+    bool retry;
     do {
         // try the division a couple of times, if the 1st fails
+        retry = false;
 
         if (ghost_volume > l_volume) {
             gdir = NDIM - 1;
@@ -218,7 +220,7 @@ void lattice_struct::setup_layout() {
 
 
         if (fail && !secondtime && gdir >= 0) {
-            secondtime = true;
+            secondtime = retry = true;
             ghosts[gdir] =
                 (1ULL << 62); // this short-circuits direction gdir, some other taken next
         } else if (fail) {
@@ -241,7 +243,7 @@ void lattice_struct::setup_layout() {
             hila::finishrun();
         }
 
-    } while (secondtime);
+    } while (retry);
 
     // set up struct nodes variables
     nodes.number = hila::number_of_nodes();
-- 
2.43.0


From 5ef85b075ec52899fd9823c13217d6b5ac89e0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 02/47] fix: invalidate the halo of both parities when the
 lattice size is odd

---
 libraries/plumbing/field.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libraries/plumbing/field.h b/libraries/plumbing/field.h
index 1aa9c51..229de5f 100644
--- a/libraries/plumbing/field.h
+++ b/libraries/plumbing/field.h
@@ -583,11 +583,15 @@ class Field {
     void mark_changed(const Parity p) const {
 
         for (Direction i = (Direction)0; i < NDIRS; ++i) {
+            // If the lattice size is odd, neighbours across the periodic boundary can have the
+            // same parity: both parities must be invalidated
+            const Parity invalid = (fs->mylattice.size(abs(i)) % 2 == 0) ? opp_parity(p) : ALL;
+
             // check if there's ongoing comms, invalidate it!
-            drop_comms(i, opp_parity(p));
+            drop_comms(i, invalid);
 
-            set_gather_status(opp_parity(p), i, gather_status_t::NOT_DONE);
-            if (p != ALL) {
+            set_gather_status(invalid, i, gather_status_t::NOT_DONE);
+            if (invalid != ALL) {
                 set_gather_status(ALL, i, gather_status_t::NOT_DONE);
             } else {
                 set_gather_status(EVEN, i, gather_status_t::NOT_DONE);
-- 
2.43.0


From efa811ae03344efd7075c355f402aa7f391c5d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 03/47] fix: Field::set_local_data compiles with a const buffer

---
 libraries/plumbing/field_comm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 50ca1d6..696eb21 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -1112,7 +1112,7 @@ void Field<T>::set_local_data(const std::vector<T> &buffer) {
     T *data = (T *)d_malloc(sizeof(T) * lattice->mynode.volume);
     gpuMemcpy(data, buffer.data(), sizeof(T) * lattice->mynode.volume, gpuMemcpyHostToDevice);
 #else
-    T *data = buffer.data();
+    const T *data = buffer.data();
 #endif
 
 #pragma hila novector direct_access(data)
-- 
2.43.0


From ff59bb272698f4c7e15c9371d4a74b36fdc8be9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 04/47] fix: Field::product compiles, using the standard
 product reduction

---
 libraries/plumbing/reduction.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index 777bbdc..3e52d6b 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -297,12 +297,12 @@ template <typename T>
 T Field<T>::product(Parity par, bool allreduce) const {
     static_assert(std::is_arithmetic<T>::value,
                   ".product() reduction only for integer or floating point types");
-    Reduction<T> result;
-    result = 1;
-    result.allreduce(allreduce);
+    // Reduction<T> implements only sums, use standard reduction
+    T result = 1;
+    hila::set_allreduce(allreduce);
     onsites (par)
         result *= (*this)[X];
-    return result.value();
+    return result;
 }
 
 
-- 
2.43.0


From 7f5103743f8349fbd79366638b8f9c1f1dbbea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 05/47] fix: delayed Reduction used again after reduce() counts
 earlier sums once

---
 libraries/plumbing/reduction.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index 3e52d6b..8d00ad7 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -206,8 +206,9 @@ class Reduction {
 
         wait(); // wait for possible ongoing
 
-        // add the node values to reduction var
-        if (hila::myrank() == 0 || is_delayed_)
+        // add the node values to reduction var.  On other ranks than 0 the old value is kept only
+        // if it is from a delayed reduction which is not yet reduced
+        if (hila::myrank() == 0 || delay_is_on)
             val += v;
         else
             val = v;
@@ -219,6 +220,7 @@ class Reduction {
             delay_is_on = true;
             is_delayed_sum = true;
         } else {
+            delay_is_on = false;
             do_reduce_operation(MPI_SUM);
         }
     }
-- 
2.43.0


From 7ec4e4226a074f8f893e7c19b873b1c3a66bfc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 06/47] fix: delayed ReductionVector products, and assignment
 while a reduction is pending

---
 libraries/plumbing/reductionvector.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libraries/plumbing/reductionvector.h b/libraries/plumbing/reductionvector.h
index cc24a66..5b9dd64 100644
--- a/libraries/plumbing/reductionvector.h
+++ b/libraries/plumbing/reductionvector.h
@@ -204,12 +204,16 @@ class ReductionVector {
     /// Make this return void, hard to imagine it is used for anything useful
     template <typename S, std::enable_if_t<std::is_assignable<T &, S>::value, int> = 0>
     void operator=(const S &rhs) {
+        wait();
+        delay_is_on = false;
         for (auto &vp : val)
             vp = rhs;
     }
 
     /// Assignment from 0
     void operator=(std::nullptr_t np) {
+        wait();
+        delay_is_on = false;
         for (auto &vp : val)
             vp = 0;
     }
@@ -243,7 +247,9 @@ class ReductionVector {
                 assert(0 && "Cannot mix sum and product reductions!");
             }
             delay_is_on = true;
+            is_delayed_sum = true;
         } else {
+            delay_is_on = false;
             reduce_operation(MPI_SUM);
         }
     }
@@ -264,7 +270,9 @@ class ReductionVector {
                 assert(0 && "Cannot mix sum and product reductions!");
             }
             delay_is_on = true;
+            is_delayed_sum = false;
         } else {
+            delay_is_on = false;
             reduce_operation(MPI_PROD);
         }
     }
-- 
2.43.0


From 16640907e0bb33ffb4ea25a6599bc151f4297411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:52 +0000
Subject: [PATCH 07/47] fix: Field::max of negative values, and location when
 all values are extreme

---
 libraries/plumbing/reduction.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index 8d00ad7..39e2bba 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -330,30 +330,36 @@ T Field<T>::minmax(bool is_min, Parity par, CoordinateVector &loc) const {
 
 #if defined(CUDA) || defined(HIP)
     T val = gpu_minmax(is_min, par, loc);
+    bool found = true;
 #else
     // get suitable initial value
-    T val = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
+    T val = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
+    bool found = false; // is there any site with this parity on this rank
 
     // write the loop with explicit OpenMP parallel region.  It has negligible effect
     // on non-OpenMP code, and the pragmas are ignored.
-    #pragma omp parallel shared(val, loc, is_min)
+    #pragma omp parallel shared(val, loc, is_min, found)
     {
         CoordinateVector loc_th(0);
-        T val_th = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
+        T val_th = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
+        bool found_th = false;
 
         // Pragma "hila omp_parallel_region" is necessary here, because this is within
         // omp parallel
-        #pragma hila novector omp_parallel_region direct_access(loc_th, val_th)
+        #pragma hila novector omp_parallel_region direct_access(loc_th, val_th, found_th)
         onsites (par) {
-            if ((is_min && (*this)[X] < val_th) || (!is_min && (*this)[X] > val_th)) {
+            if (!found_th || (is_min && (*this)[X] < val_th) ||
+                (!is_min && (*this)[X] > val_th)) {
                 val_th = (*this)[X];
                 loc_th = X.coordinates();
+                found_th = true;
             }
         }
         #pragma omp critical
-        if ((is_min && val_th < val) || (!is_min && val_th > val)) {
+        if (found_th && (!found || (is_min && val_th < val) || (!is_min && val_th > val))) {
             val = val_th;
             loc = loc_th;
+            found = true;
         }
     }
     
@@ -373,7 +379,8 @@ T Field<T>::minmax(bool is_min, Parity par, CoordinateVector &loc) const {
                       "min/max reduction: datatype struct not packed!");
 
         rdata.v = val;
-        rdata.rank = hila::myrank();
+        // ranks without sites must not be chosen if values are equal
+        rdata.rank = hila::myrank() + (found ? 0 : hila::number_of_nodes());
 
         // after allreduce rdata contains the min value and rank where it is
         if (is_min) {
@@ -384,7 +391,8 @@ T Field<T>::minmax(bool is_min, Parity par, CoordinateVector &loc) const {
         val = rdata.v;
 
         // send the coordinatevector of the minloc to all nodes
-        MPI_Bcast(&loc, sizeof(CoordinateVector), MPI_BYTE, rdata.rank, lattice->mpi_comm_lat);
+        MPI_Bcast(&loc, sizeof(CoordinateVector), MPI_BYTE, rdata.rank % hila::number_of_nodes(),
+                  lattice->mpi_comm_lat);
     }
 
     return val;
-- 
2.43.0


From f2dd6ef3d13d151570343e401985f5df3ba2ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:18 +0000
Subject: [PATCH 08/47] fix: shifts and offsets longer than one step obey the
 boundary conditions of the field

---
 libraries/plumbing/field_comm.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 696eb21..0a8e2f1 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -239,6 +239,17 @@ Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity
     Field<T> r1;
     Field<T> *from, *to;
 
+#ifdef SPECIAL_BOUNDARY_CONDITIONS
+    // Each step may cross the boundary: intermediate steps are read from fields which have the
+    // b.c. of this field. The b.c. of res are not touched.
+    Field<T> r2;
+    if constexpr (hila::has_unary_minus<T>::value) {
+        r1.copy_boundary_condition(*this);
+        r2.copy_boundary_condition(*this);
+    }
+    from = &r1;
+    to = &r2;
+#else
     // this ensures that the final move lands on res
     if (len % 2 == 0) {
         from = &r1;
@@ -247,6 +258,7 @@ Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity
         from = &res;
         to = &r1;
     }
+#endif
     // and copy initially to "from"
     (*from).shift_from(*this, mdir, par_s);
     // (*from)[par_s] = (*this)[X + mdir];
@@ -261,6 +273,10 @@ Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity
 
             while (rem[d] != 0) {
 
+                // the last step goes to res
+                if (rem.norm_L1() == 1)
+                    to = &res;
+
                 (*to).shift_from(*from, mdir, par_s);
                 //(*to)[par_s] = (*from)[X + mdir];
 
@@ -300,6 +316,11 @@ void Field<T>::buffered_shift_offsets(const CoordinateVector &v, Parity par) con
     fs->shift_buffer.emplace_back();
     fs->shift_buffer.back().par = Parity::none; // flag it new
     fs->shift_buffer.back().offset = v;
+#ifdef SPECIAL_BOUNDARY_CONDITIONS
+    // longer shifts are read from the buffers
+    if constexpr (hila::has_unary_minus<T>::value)
+        fs->shift_buffer.back().f.copy_boundary_condition(*this);
+#endif
     return;
 }
 
-- 
2.43.0


From 3b47966337908e2f4d2135d3b1dde9874b16505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:16 +0000
Subject: [PATCH 09/47] fix: vectorised product reductions of float, int and
 long start from one and keep integers exact

---
 libraries/plumbing/backend_vector/defs.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libraries/plumbing/backend_vector/defs.h b/libraries/plumbing/backend_vector/defs.h
index 315bc99..2ab8fbf 100644
--- a/libraries/plumbing/backend_vector/defs.h
+++ b/libraries/plumbing/backend_vector/defs.h
@@ -250,7 +250,7 @@ inline double reduce_prod(Vec4d v) {
 }
 
 inline double reduce_prod(Vec8f v) {
-    double sum = 0;
+    double sum = 1;
     float store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
@@ -259,7 +259,7 @@ inline double reduce_prod(Vec8f v) {
 }
 
 inline double reduce_prod(Vec8i v) {
-    double sum = 0;
+    double sum = 1;
     int store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
@@ -277,7 +277,7 @@ inline double reduce_prod(Vec8d v) {
 }
 
 inline double reduce_prod(Vec16f v) {
-    double sum = 0;
+    double sum = 1;
     float store[16];
     v.store(&(store[0]));
     for (int i = 0; i < 16; i++)
@@ -286,7 +286,7 @@ inline double reduce_prod(Vec16f v) {
 }
 
 inline double reduce_prod(Vec16i v) {
-    double sum = 0;
+    double sum = 1;
     int store[16];
     v.store(&(store[0]));
     for (int i = 0; i < 16; i++)
@@ -294,8 +294,8 @@ inline double reduce_prod(Vec16i v) {
     return sum;
 }
 
-inline double reduce_prod(Vec4q v) {
-    double sum = 0;
+inline int64_t reduce_prod(Vec4q v) {
+    int64_t sum = 1;
     int64_t store[4];
     v.store(&(store[0]));
     for (int i = 0; i < 4; i++)
@@ -303,8 +303,8 @@ inline double reduce_prod(Vec4q v) {
     return sum;
 }
 
-inline double reduce_prod(Vec8q v) {
-    double sum = 0;
+inline int64_t reduce_prod(Vec8q v) {
+    int64_t sum = 1;
     int64_t store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
-- 
2.43.0


From db2bba8ca7a556e976bc6357222b45c448cb0bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 10/47] fix: vectorised antiperiodic boundaries negate only the
 subnodes at the lattice edge

---
 .../backend_vector/field_storage_backend.h         | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/backend_vector/field_storage_backend.h b/libraries/plumbing/backend_vector/field_storage_backend.h
index 9b015eb..bd87a42 100644
--- a/libraries/plumbing/backend_vector/field_storage_backend.h
+++ b/libraries/plumbing/backend_vector/field_storage_backend.h
@@ -209,6 +209,18 @@ void field_storage<T>::set_local_boundary_elements(Direction dir, Parity par, co
                 // hila::out0 << "its permutation\n";
                 const int *RESTRICT perm = vector_lattice->boundary_permutation[dir];
 
+#ifdef SPECIAL_BOUNDARY_CONDITIONS
+                // only the subnodes at the lattice edge cross the boundary, the others have
+                // their neighbour subnode on this node
+                bool on_edge[vector_size];
+                for (unsigned i = 0; i < vector_size; i++) {
+                    int c = lattice->coordinates(i)[abs(dir)] - lattice->coordinates(0)[abs(dir)];
+                    if (is_up_dir(dir))
+                        c += vector_lattice->subnode_size[abs(dir)];
+                    on_edge[i] = (c == (is_up_dir(dir) ? lattice->mynode.size[abs(dir)] : 0));
+                }
+#endif
+
                 basetype *fp = static_cast<basetype *>(static_cast<void *>(fieldbuf));
                 for (unsigned idx = start; idx < end; idx++) {
                     /// get ptrs to target and source vec elements
@@ -224,7 +236,7 @@ void field_storage<T>::set_local_boundary_elements(Direction dir, Parity par, co
 #ifdef SPECIAL_BOUNDARY_CONDITIONS
                         for (unsigned e = 0; e < elements * vector_size; e += vector_size)
                             for (unsigned i = 0; i < vector_size; i++)
-                                t[e + i] = -s[e + perm[i]];
+                                t[e + i] = on_edge[i] ? -s[e + perm[i]] : s[e + perm[i]];
 #endif
                     }
                 }
-- 
2.43.0


From 40af505469444101978b773bec0ccc417dc34908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:14 +0000
Subject: [PATCH 11/47] fix: SiteValueSelect selected twice at a site does not
 write past its values

---
 libraries/plumbing/site_select.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/site_select.h b/libraries/plumbing/site_select.h
index 3de66df..755b955 100644
--- a/libraries/plumbing/site_select.h
+++ b/libraries/plumbing/site_select.h
@@ -292,8 +292,9 @@ class SiteValueSelect : public SiteSelect {
     }
 
     void select_site_value(const SiteIndex s, const T &val) {
-        values[current_index] = val;
+        // advances current_index only if this site is not selected already
         SiteSelect::select_site(s);
+        values[current_index - 1] = val;
     }
 
 
-- 
2.43.0


From 483e986e88ca856ea1de7264ce3582f030e8b683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:49 +0000
Subject: [PATCH 12/47] fix: seeding the random generator discards the stored
 second gaussian number

hila::gaussrand() kept the second number of a Box-Muller pair in a function static, so after
seed_random() the first gaussian number could still come from the previous stream.
---
 libraries/plumbing/random.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/random.cpp b/libraries/plumbing/random.cpp
index 0a0bf80..bcb03d3 100644
--- a/libraries/plumbing/random.cpp
+++ b/libraries/plumbing/random.cpp
@@ -35,6 +35,9 @@ double hila::host_random() {
 
 static bool rng_is_initialized = false;
 
+// true when hila::gaussrand() does not hold a number left from its previous call
+static bool gauss_draw_new = true;
+
 namespace hila {
 
 /**
@@ -59,6 +62,9 @@ uint64_t shuffle_rng_seed(uint64_t seed) {
  */
 void initialize_host_rng(uint64_t seed) {
 
+    // a gaussian number left over from the old seed must not be used any more
+    gauss_draw_new = true;
+
     seed = hila::shuffle_rng_seed(seed);
 
     // #if !defined(OPENMP)
@@ -221,12 +227,11 @@ double hila::gaussrand2(double &out2) {
  */  
 double hila::gaussrand() {
     static double second;
-    static bool draw_new = true;
-    if (draw_new) {
-        draw_new = false;
+    if (gauss_draw_new) {
+        gauss_draw_new = false;
         return hila::gaussrand2(second);
     }
-    draw_new = true;
+    gauss_draw_new = true;
     return second;
 }
 
-- 
2.43.0


From 93269c9b9db11d076359e07633fc5487aced82e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:07 +0000
Subject: [PATCH 13/47] fix: do not pclose() a null stream when squeue cannot
 be started

'-t slurm' reports the failure and ends the run on all ranks; the unconditional pclose() crashed
rank 0 before that.
---
 libraries/plumbing/timing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/timing.cpp b/libraries/plumbing/timing.cpp
index 6f5abf0..fe3e884 100644
--- a/libraries/plumbing/timing.cpp
+++ b/libraries/plumbing/timing.cpp
@@ -232,7 +232,8 @@ void setup_timelimit(const std::string &timestr) {
                 hila::out0 << "COULD NOT GET TIME FROM squeue COMMAND\n";
                 status = -1; // exit the program
             }
-            pclose(fp);
+            if (fp)
+                pclose(fp);
         }
 
         if (status == 0) {
-- 
2.43.0


From 8367017561bc345141530dd88ea2b1d2723f490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:03 +0000
Subject: [PATCH 14/47] fix: read complex parameters in the documented form
 '(re, im)'

The parentheses had to be separated from the numbers by whitespace.
---
 libraries/plumbing/input.cpp | 10 ++++++++++
 libraries/plumbing/input.h   | 20 +++++++++++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/libraries/plumbing/input.cpp b/libraries/plumbing/input.cpp
index 173aa79..ad5cc30 100644
--- a/libraries/plumbing/input.cpp
+++ b/libraries/plumbing/input.cpp
@@ -287,6 +287,16 @@ bool input::match_token(const std::string &tok) {
     return false;
 }
 
+// match_char skips whitespace, returns true and consumes the char if it matches
+
+bool input::match_char(char c) {
+    if (remove_whitespace() && linebuffer[lb_start] == c) {
+        lb_start++;
+        return true;
+    }
+    return false;
+}
+
 // require the (typically beginning of line) key for parameters
 
 bool input::handle_key(const std::string &key) {
diff --git a/libraries/plumbing/input.h b/libraries/plumbing/input.h
index b34af85..5371e4f 100644
--- a/libraries/plumbing/input.h
+++ b/libraries/plumbing/input.h
@@ -343,12 +343,10 @@ class input {
         bool no_error = handle_key(label); // removes whitespace
 
         if (hila::myrank() == 0 && no_error) {
-            std::string tok;
-            T re, im;
+            T re = 0, im = 0;
 
-            no_error =
-                (match_token("(") && get_token(tok) && is_value(tok, re) && match_token(",") &&
-                 get_token(tok) && is_value(tok, im) && match_token(")"));
+            no_error = (match_char('(') && get_number(re) && match_char(',') && get_number(im) &&
+                        match_char(')'));
             if (!no_error && speaking) {
                 hila::out << "Error: expecting complex value '(re,im)' after '" << label << "'\n";
             }
@@ -488,6 +486,18 @@ class input {
     bool peek_token(std::string &tok);
     bool get_token(std::string &tok);
     bool match_token(const std::string &tok);
+    bool match_char(char c);
+
+    // get number which may be followed by a closing parenthesis
+    template <typename T>
+    bool get_number(T &val) {
+        std::string tok;
+        if (!peek_token(tok))
+            return false;
+        tok = tok.substr(0, tok.find(')'));
+        lb_start += tok.size();
+        return is_value(tok, val);
+    }
 
     void scan_cmdline(const std::string &key, int &end_of_key);
 
-- 
2.43.0


From 3e02804affeea4f644024ef14e2996c01d652748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:20 +0000
Subject: [PATCH 15/47] fix: name other parameter types 'value' in input error
 messages

A null pointer was written to the output stream for types like bool, which put the stream in
error state and lost all later output.
---
 libraries/plumbing/input.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/input.h b/libraries/plumbing/input.h
index 5371e4f..f8c8ce7 100644
--- a/libraries/plumbing/input.h
+++ b/libraries/plumbing/input.h
@@ -480,7 +480,7 @@ class input {
     /// a helper method to give type name
     template <typename T>
     inline const char *type_id() {
-        return nullptr;
+        return "value";
     }
 
     bool peek_token(std::string &tok);
-- 
2.43.0


From d049a589c60d3b8a9815aa70944bd5b43655bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:20 +0000
Subject: [PATCH 16/47] fix: opening an input file discards what is left of the
 previous one

When the variable is used again, the rest of the last line of the previous file was read as if
it was in the new file.
---
 libraries/plumbing/input.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libraries/plumbing/input.cpp b/libraries/plumbing/input.cpp
index ad5cc30..262f254 100644
--- a/libraries/plumbing/input.cpp
+++ b/libraries/plumbing/input.cpp
@@ -30,6 +30,9 @@ bool input::open(const std::string &file_name, bool use_cmdline, bool exit_on_er
 
     file_number = ++input_file_count;
     cmdline_p.clear();
+    // and forget what is left of the previous file
+    linebuffer.clear();
+    lb_start = 0;
 
     if (use_cmdline && input_file_count == 1 && hila::cmdline.flag_present("-i")) {
         // input_file_count guarantees this is done only 1st time
-- 
2.43.0


From bdf18de8420c6174a15f302bbc3337506a282224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:38 +0000
Subject: [PATCH 17/47] fix: block() reuses an existing lattice only if it was
 blocked from the current one

A lattice of the wanted size blocked from another parent was activated, and
unblock() then returned to that parent.
---
 libraries/plumbing/lattice.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/lattice.cpp b/libraries/plumbing/lattice.cpp
index 0c79a1b..c936f22 100644
--- a/libraries/plumbing/lattice.cpp
+++ b/libraries/plumbing/lattice.cpp
@@ -1075,7 +1075,8 @@ lattice_struct *lattice_struct::block_by_factor(const CoordinateVector &blocking
     hila::synchronize();
 
     for (auto *l : hila::defined_lattices) {
-        if (l->l_size == blockvol) {
+        // another lattice can have the same size, but it must have been blocked from this one
+        if (l->l_size == blockvol && (l == this || l->parent == this)) {
             lattice.switch_to(l);
             return l;
         }
-- 
2.43.0


From 483755456c194180511adcb405f4f2718e76278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:38 +0000
Subject: [PATCH 18/47] fix: blocking fields on ranks without sites of the
 blocked lattice

These ranks returned early from block_from(), unblock_to() and
block_to_current_lattice(): the field stayed on the old lattice or its halo
was not marked changed, so the later communications did not match.
---
 libraries/plumbing/field_comm.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 0a8e2f1..890f726 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -1322,10 +1322,8 @@ void Field<T>::block_from(Field<T> &orig) {
 
     assert(blocklat->parent == parentlat && "blocking must happen from parent lattice Field");
 
-    // If no sites on this node there's nothing to do
-    if (blocklat->mynode.volume == 0)
-        return;
-
+    // NOTE: also ranks without blocked sites must go through the loops below, in order to
+    // keep the status of the fields in sync with the other ranks
 
     // alloc temp array, size of the blocked lattice
     size_t bufsize = blocklat->mynode.volume;
@@ -1385,9 +1383,8 @@ void Field<T>::unblock_to(Field<T> &target) const {
         return;
     }
 
-    // If no sites on this node there's nothing to do
-    if (blocklat->mynode.volume == 0)
-        return;
+    // NOTE: also ranks without blocked sites must go through the loops below, in order to
+    // keep the status of the fields in sync with the other ranks
 
     // alloc temp array, size of the blocked lattice
     size_t bufsize = blocklat->mynode.volume;
@@ -1439,9 +1436,8 @@ void Field<T>::block_to_current_lattice() {
     assert(currentlat->parent == thislat &&
            "blocking must happen to the next lattice blocked from thislat");
 
-    // If no sites on this node there's nothing to do
-    if (currentlat->mynode.volume == 0)
-        return;
+    // NOTE: also ranks without blocked sites must go through the loops below, in order to
+    // keep the status of the fields in sync with the other ranks
 
     // alloc temp array, size of the blocked lattice
     size_t bufsize = currentlat->mynode.volume;
-- 
2.43.0


From 8fbe907dd1421ed0486df631766e7aeb8e71b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:38 +0000
Subject: [PATCH 19/47] fix: wait_gather() uses the lattice of the field, not
 the active one

A field can be destroyed while its gather is under way and another lattice is
active: the communications were then left running over freed memory.
---
 libraries/plumbing/field_comm.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 890f726..f5da6a7 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -653,7 +653,9 @@ void Field<T>::wait_gather(Direction d, Parity p) const {
 
     assert_all_ranks_present();
 
-    const lattice_struct::nn_comminfo_struct &ci = lattice->nn_comminfo[d];
+    // the field can be on another lattice than the active one, if it is cleared or changed while
+    // a gather is under way
+    const lattice_struct::nn_comminfo_struct &ci = fs->mylattice->nn_comminfo[d];
     const lattice_struct::comm_node_struct &from_node = ci.from_node;
     const lattice_struct::comm_node_struct &to_node = ci.to_node;
 
-- 
2.43.0


From 606ea3f8e4c4541c315ce75b3a67fe553ec0102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 20/47] fix: hilapp reads in conditionally assigned fields also
 with site dependent indices

A loop with an array indexed by a site dependent value inside the conditional
was not marked as having one, so a field assigned only there got undefined
values on the other sites.
---
 hilapp/src/toplevelvisitor.cpp | 38 +++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index b8d37d8..24c2c91 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -1368,29 +1368,29 @@ bool TopLevelVisitor::handle_loop_body_stmt(Stmt *s) {
         TraverseStmt(s);
 
         // check also the conditionals - are these site dependent?
-        if (!loop_info.has_site_dependent_cond_or_index) {
-            Expr *condexpr = nullptr;
-            if (IfStmt *IS = dyn_cast<IfStmt>(s))
-                condexpr = IS->getCond();
-            else if (ForStmt *FS = dyn_cast<ForStmt>(s))
-                condexpr = FS->getCond();
-            else if (WhileStmt *WS = dyn_cast<WhileStmt>(s))
-                condexpr = WS->getCond();
-            else if (DoStmt *DS = dyn_cast<DoStmt>(s))
-                condexpr = DS->getCond();
-            else if (SwitchStmt *SS = dyn_cast<SwitchStmt>(s))
-                condexpr = SS->getCond();
-            else if (ConditionalOperator *CO = dyn_cast<ConditionalOperator>(s))
-                condexpr = CO->getCond();
-
-            if (condexpr != nullptr) {
+        Expr *condexpr = nullptr;
+        if (IfStmt *IS = dyn_cast<IfStmt>(s))
+            condexpr = IS->getCond();
+        else if (ForStmt *FS = dyn_cast<ForStmt>(s))
+            condexpr = FS->getCond();
+        else if (WhileStmt *WS = dyn_cast<WhileStmt>(s))
+            condexpr = WS->getCond();
+        else if (DoStmt *DS = dyn_cast<DoStmt>(s))
+            condexpr = DS->getCond();
+        else if (SwitchStmt *SS = dyn_cast<SwitchStmt>(s))
+            condexpr = SS->getCond();
+        else if (ConditionalOperator *CO = dyn_cast<ConditionalOperator>(s))
+            condexpr = CO->getCond();
+
+        if (condexpr != nullptr) {
+            // Flag general cond expression
+            loop_info.has_conditional = true;
+
+            if (!loop_info.has_site_dependent_cond_or_index) {
                 loop_info.has_site_dependent_cond_or_index =
                     is_site_dependent(condexpr, &loop_info.conditional_vars);
                 if (loop_info.has_site_dependent_cond_or_index)
                     loop_info.condExpr = condexpr;
-
-                // Flag general cond expression
-                loop_info.has_conditional = true;
             }
         }
 
-- 
2.43.0


From b778d0c0bc13deea2e34e6bd3619fe4628e0ca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 21/47] fix: clusters from links join only linked sites

Clusters::find(VectorField) joined all neighbouring sites which had any link,
also where the link between them is zero.
---
 libraries/plumbing/clusters.h | 54 +++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/libraries/plumbing/clusters.h b/libraries/plumbing/clusters.h
index 60f5181..1011bbc 100644
--- a/libraries/plumbing/clusters.h
+++ b/libraries/plumbing/clusters.h
@@ -293,15 +293,8 @@ class Clusters {
     /// @param link[d][X] is non-zero if sites X and X + d are to be connected
     template <typename inttype, std::enable_if_t<std::is_integral<inttype>::value, int> = 0>
     void find(const VectorField<inttype> &link) {
-        assert_all_ranks_present();
-        Field<uint8_t> f{hila::Clusters::background};
-        foralldir (d) {
-            onsites (ALL) {
-                if (link[d][X] != 0 || link[d][X - d] != 0)
-                    f[X] = 1;
-            }
-        }
-        find(f);
+        make_labels(link);
+        classify();
     }
 
 
@@ -393,6 +386,49 @@ class Clusters {
         // hila::out0 << "cluster labels: " << i << " iterations\n";
     }
 
+    /// @brief make only the Field representation of cluster labels from connecting links
+    /// @param link - link[d][X] is non-zero if sites X and X + d are to be connected
+    /// @details Sites without any links are background. The type of all clusters is 1
+    template <typename inttype, std::enable_if_t<std::is_integral<inttype>::value, int> = 0>
+    void make_labels(const VectorField<inttype> &link) {
+
+        assert_all_ranks_present();
+
+        Field<uint8_t> type{hila::Clusters::background};
+        foralldir (d) {
+            onsites (ALL) {
+                if (link[d][X] != 0 || link[d][X - d] != 0)
+                    type[X] = 1;
+            }
+        }
+
+        labels[ALL] = set_cl_label(X.coordinates(), type[X]);
+
+        Reduction<int64_t> changed;
+        changed.delayed();
+        do {
+            changed = 0;
+            for (Parity par : {EVEN, ODD}) {
+                foralldir (d) {
+                    // take away annoying warning with pragma
+                    #pragma hila safe_access(labels)
+                    onsites (par) {
+                        auto label_up = labels[X + d];
+                        if (link[d][X] != 0 && labels[X] > label_up) {
+                            labels[X] = label_up;
+                            changed += 1;
+                        }
+                        auto label_down = labels[X - d];
+                        if (link[d][X - d] != 0 && labels[X] > label_down) {
+                            labels[X] = label_down;
+                            changed += 1;
+                        }
+                    }
+                }
+            }
+        } while (changed.value() > 0);
+    }
+
     /// @brief obtain const refence to cluster label Field var
     /// Clusters::find() must have been called before this
 
-- 
2.43.0


From d7d517ed18e75b9ce89d709dba04c0506aa3a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 22/47] fix: reflect() on odd lattice sizes

The two sites in the middle were not exchanged.
---
 libraries/plumbing/fft_fftw_transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/fft_fftw_transform.h b/libraries/plumbing/fft_fftw_transform.h
index 3b80cb1..4f6b9b2 100644
--- a/libraries/plumbing/fft_fftw_transform.h
+++ b/libraries/plumbing/fft_fftw_transform.h
@@ -290,7 +290,7 @@ inline void hila_fft<cmplx_t>::reflect() {
         }
 
         // reflect
-        for (int j = 1; j < length / 2; j++) {
+        for (int j = 1; j < (length + 1) / 2; j++) {
             std::swap(buf[j], buf[length - j]);
         }
 
-- 
2.43.0


From d55a4d96bd6c6f3b678222926040db76ec6fb808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 23/47] fix: FFT and reflect() without active directions copy
 the input

The result was filled from an uninitialized work buffer.
---
 libraries/plumbing/fft.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/fft.h b/libraries/plumbing/fft.h
index 84f6058..58cf017 100644
--- a/libraries/plumbing/fft.h
+++ b/libraries/plumbing/fft.h
@@ -337,7 +337,12 @@ class hila_fft {
             }
         }
 
-        save_result(result);
+        if (first_dir) {
+            // no active directions, nothing was transformed
+            result = input;
+        } else {
+            save_result(result);
+        }
 
         result.mark_changed(ALL);
     }
-- 
2.43.0


From 0414f0ae2bd81fd81b261af1e8954d9004ed8370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 24/47] fix: FFT and reflect() on blocked lattices with ranks
 without sites

Division by zero on these ranks, and they were taken as members of the columns
of other ranks.
---
 libraries/plumbing/fft.cpp              | 32 ++++++++++++++++---------
 libraries/plumbing/fft_fftw_transform.h | 10 ++++++++
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/libraries/plumbing/fft.cpp b/libraries/plumbing/fft.cpp
index aa627c8..2751049 100644
--- a/libraries/plumbing/fft.cpp
+++ b/libraries/plumbing/fft.cpp
@@ -5,6 +5,8 @@
 #include "plumbing/timing.h"
 #include "plumbing/fft.h"
 
+#include <map>
+
 
 hila::timer fft_timer("FFT total time");
 hila::timer fft_plan_timer(" FFT plan");
@@ -64,19 +66,22 @@ void init_pencil_direction(Direction dir) {
     if (fft.hila_pencil_comms[dir].size() == 0) {
         // basic structs not yet set, do it here
 
-        fft.hila_pencil_comms[dir].resize(lattice->nodes.n_divisions[dir]);
+        // nodes of this column, ordered by coordinate.  On a blocked lattice there can be nodes
+        // without sites, these do not participate
+        std::map<int, hila::pencil_struct> column;
 
-        int nodenumber = 0;
         for (int nodenumber = 0; nodenumber < lattice->nodes.number; ++nodenumber) {
 
             const node_info n = lattice->nodes.nodeinfo(nodenumber);
 
             bool is_in_column = true;
-            foralldir (d)
-                if (d != dir && n.min[d] != lattice->mynode.min[d]) {
+            foralldir (d) {
+                if (n.size[d] == 0 || lattice->mynode.size[d] == 0 ||
+                    (d != dir && n.min[d] != lattice->mynode.min[d])) {
                     is_in_column = false;
                     break; // breaks out of foralldir
                 }
+            }
 
             // store the nodes in the hila_pencil_comms -list in the right order -
             // nodes may be reordered by some weird layout
@@ -84,14 +89,21 @@ void init_pencil_direction(Direction dir) {
                 hila::pencil_struct fn;
                 fn.node = nodenumber;
                 fn.size_to_dir = n.size[dir];
-                for (int i = 0; i < lattice->nodes.n_divisions[dir]; i++) {
-                    if (n.min[dir] == lattice->nodes.divisors[dir][i]) {
-                        fft.hila_pencil_comms[dir].at(i) = fn;
-                    }
-                }
+                column[n.min[dir]] = fn;
             }
         }
 
+        fft.hila_fft_my_columns[dir] = 0;
+        fft.pencil_recv_buf_size[dir] = 0;
+
+        // nothing to do for nodes without sites
+        if (column.empty())
+            return;
+
+        for (auto &c : column) {
+            fft.hila_pencil_comms[dir].push_back(c.second);
+        }
+
         size_t total_columns = lattice->mynode.volume / lattice->mynode.size[dir];
 
         size_t nodes = fft.hila_pencil_comms[dir].size();
@@ -109,8 +121,6 @@ void init_pencil_direction(Direction dir) {
             i++;
         }
 
-        fft.pencil_recv_buf_size[dir] = 0;
-
         for (auto &fn : fft.hila_pencil_comms[dir]) {
             fn.recv_buf_size = fft.hila_fft_my_columns[dir] * fn.size_to_dir;
 
diff --git a/libraries/plumbing/fft_fftw_transform.h b/libraries/plumbing/fft_fftw_transform.h
index 4f6b9b2..8ab1ec8 100644
--- a/libraries/plumbing/fft_fftw_transform.h
+++ b/libraries/plumbing/fft_fftw_transform.h
@@ -165,6 +165,11 @@ void hila_fft<cmplx_t>::gather_data() {
     const hila::fftdata_struct &fft = *(lattice->fftdata);
 
     // post receive and send
+    // the list is empty if there are no sites on this node
+    if (fft.hila_pencil_comms[dir].empty()) {
+        pencil_MPI_timer.stop();
+        return;
+    }
     int n_comms = fft.hila_pencil_comms[dir].size() - 1;
 
     std::vector<MPI_Request> sendreq(n_comms), recreq(n_comms);
@@ -222,6 +227,11 @@ void hila_fft<cmplx_t>::scatter_data() {
 
     const hila::fftdata_struct &fft = *(lattice->fftdata);
 
+    // the list is empty if there are no sites on this node
+    if (fft.hila_pencil_comms[dir].empty()) {
+        pencil_MPI_timer.stop();
+        return;
+    }
     int n_comms = fft.hila_pencil_comms[dir].size() - 1;
 
     std::vector<MPI_Request> sendreq(n_comms), recreq(n_comms);
-- 
2.43.0


From 025e9dbf64d2d0275909a4cfcadd7b2109b3a647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 25/47] fix: k_binning recalculates its bin info when the
 binning changes

---
 libraries/plumbing/spectraldensity.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libraries/plumbing/spectraldensity.h b/libraries/plumbing/spectraldensity.h
index 1a9f5f9..91ec33f 100644
--- a/libraries/plumbing/spectraldensity.h
+++ b/libraries/plumbing/spectraldensity.h
@@ -75,6 +75,12 @@ class k_binning {
     std::vector<double> k_avg;
     std::vector<size_t> bin_count;
 
+    // binning changed: bin info must be calculated again
+    void reset_bin_info() {
+        k_avg.clear();
+        bin_count.clear();
+    }
+
   public:
     k_binning() {
         par.max = M_PI;
@@ -104,6 +110,7 @@ class k_binning {
         par.bins = n;
         par.bins_set = true;
         par.binwidth = par.max / par.bins;
+        reset_bin_info();
         return *this;
     }
 
@@ -118,7 +125,10 @@ class k_binning {
         if (!par.bins_set) {
             par.bins = ceil(par.max / par.binwidth);
             par.max = par.binwidth * par.bins;
+        } else {
+            par.binwidth = par.max / par.bins;
         }
+        reset_bin_info();
         return *this;
     }
 
@@ -132,6 +142,7 @@ class k_binning {
         par.bins = ceil(par.max / w);
         par.max = par.binwidth * par.bins;
         par.bins_set = false;
+        reset_bin_info();
         return *this;
     }
 
@@ -143,6 +154,7 @@ class k_binning {
     k_binning &power(double p) {
         assert(p > 0);
         par.power = p;
+        reset_bin_info();
         return *this;
     }
 
-- 
2.43.0


From 6b830bfa913a597e31026315a583dd3a04ac04ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 26/47] fix: hila::terminate() on one rank ends the whole job,
 with a failure status

---
 libraries/plumbing/clusters.h     |  2 +-
 libraries/plumbing/com_mpi.cpp    | 50 +++++++++++++++++++++++++++++--
 libraries/plumbing/defs.h         |  1 +
 libraries/plumbing/field_comm.h   |  4 +--
 libraries/plumbing/initialize.cpp |  7 ++++-
 5 files changed, 58 insertions(+), 6 deletions(-)

diff --git a/libraries/plumbing/clusters.h b/libraries/plumbing/clusters.h
index 1011bbc..f735c89 100644
--- a/libraries/plumbing/clusters.h
+++ b/libraries/plumbing/clusters.h
@@ -257,7 +257,7 @@ class Clusters {
         if (i >= clist.size()) {
             hila::out0 << "Incorrect cluster index " << i << ", there are only " << clist.size()
                        << " clusters\n";
-            exit(0);
+            hila::terminate(1);
         }
     }
 
diff --git a/libraries/plumbing/com_mpi.cpp b/libraries/plumbing/com_mpi.cpp
index 42b348c..721d3cf 100644
--- a/libraries/plumbing/com_mpi.cpp
+++ b/libraries/plumbing/com_mpi.cpp
@@ -11,6 +11,8 @@
 
 #include "datatypes/extended.h"
 
+#include <unistd.h>
+
 
 // declare MPI timers here too - these were externs
 
@@ -214,8 +216,52 @@ bool hila::is_comm_initialized(void) {
 void hila::abort_communications(int status) {
     if (mpi_initialized) {
         mpi_initialized = false;
-        MPI_Abort(lattice->mpi_comm_lat, 0);
+        MPI_Abort(lattice->mpi_comm_lat, status != 0 ? status : 1);
+    }
+}
+
+/* Called in hila::terminate(): returns true if all nodes are terminating. Does not wait forever,
+   because the other nodes may be doing anything */
+
+#define MSG_TAG_TERMINATE 32767
+#define TERMINATE_WAIT_SECONDS 5
+
+bool hila::all_ranks_terminating() {
+    int n_ranks, rank;
+    MPI_Comm_size(lattice->mpi_comm_lat, &n_ranks);
+    MPI_Comm_rank(lattice->mpi_comm_lat, &rank);
+
+    // all nodes report to rank 0, which answers when everybody has reported
+    static char in = 0, out = 0;
+    std::vector<MPI_Request> req;
+
+    if (rank == 0) {
+        for (int r = 1; r < n_ranks; r++) {
+            req.emplace_back();
+            MPI_Irecv(&in, 0, MPI_BYTE, r, MSG_TAG_TERMINATE, lattice->mpi_comm_lat, &req.back());
+        }
+    } else {
+        req.resize(2);
+        MPI_Isend(&out, 0, MPI_BYTE, 0, MSG_TAG_TERMINATE, lattice->mpi_comm_lat, &req[0]);
+        MPI_Irecv(&in, 0, MPI_BYTE, 0, MSG_TAG_TERMINATE, lattice->mpi_comm_lat, &req[1]);
+    }
+
+    double start = hila::gettime();
+    for (MPI_Request &r : req) {
+        int done = 0;
+        while (MPI_Test(&r, &done, MPI_STATUS_IGNORE) == MPI_SUCCESS && !done) {
+            if (hila::gettime() - start > TERMINATE_WAIT_SECONDS)
+                return false;
+            usleep(10000);
+        }
+    }
+
+    if (rank == 0) {
+        for (int r = 1; r < n_ranks; r++)
+            MPI_Send(&out, 0, MPI_BYTE, r, MSG_TAG_TERMINATE, lattice->mpi_comm_lat);
     }
+
+    return true;
 }
 
 /* clean exit from all nodes */
@@ -337,7 +383,7 @@ void hila::split_into_partitions(int this_lattice) {
     if (MPI_Comm_split(MPI_COMM_WORLD, this_lattice, 0, &(lattice.ptr()->mpi_comm_lat)) !=
         MPI_SUCCESS) {
         hila::out0 << "MPI_Comm_split() call failed!\n";
-        hila::finishrun();
+        hila::terminate(1);
     }
     // reset also the rank and numbers -fields
     MPI_Comm_rank(lattice->mpi_comm_lat, &lattice.ptr()->mynode.rank);
diff --git a/libraries/plumbing/defs.h b/libraries/plumbing/defs.h
index 87933ce..b0c59ab 100644
--- a/libraries/plumbing/defs.h
+++ b/libraries/plumbing/defs.h
@@ -150,6 +150,7 @@ void split_into_partitions(int rank);
 bool is_comm_initialized(void);
 void finish_communications();
 void abort_communications(int status);
+bool all_ranks_terminating();
 
 // and print a dashed line
 void print_dashed_line(const std::string &txt = {});
diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index f5da6a7..f627b09 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -624,7 +624,7 @@ Parity Field<T>::resolve_started_parity(Direction d, Parity p, int &n_wait) cons
         if (is_gather_started(d, ALL))
             par = ALL; // if all is running wait for it
         else {
-            exit(1);
+            hila::terminate(1);
         }
     } else {
         if (is_gathered(d, EVEN) && is_gather_started(d, ODD))
@@ -635,7 +635,7 @@ Parity Field<T>::resolve_started_parity(Direction d, Parity p, int &n_wait) cons
             n_wait = 2; // need to wait for both!
             par = EVEN; // will be flipped
         } else {
-            exit(1);
+            hila::terminate(1);
         }
     }
 
diff --git a/libraries/plumbing/initialize.cpp b/libraries/plumbing/initialize.cpp
index cbc6a2b..f536a11 100644
--- a/libraries/plumbing/initialize.cpp
+++ b/libraries/plumbing/initialize.cpp
@@ -299,9 +299,14 @@ void hila::initialize(int argc, char **argv) {
 void hila::terminate(int status) {
     hila::timestamp("Terminate");
     hila::print_dashed_line();
+    hila::out.flush();
     hila::about_to_finish = true; // avoid destructors
     if (hila::is_comm_initialized()) {
-        hila::finish_communications();
+        // finish cleanly if all nodes come here, otherwise the others must be killed
+        if (hila::all_ranks_terminating())
+            hila::finish_communications();
+        else
+            hila::abort_communications(status);
     }
     exit(1);
 }
-- 
2.43.0


From 3621637b0ad8f8f14fed52c3fb47e55a738b0dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 27/47] fix: exit with failure status on bad input, command
 line, layout or output file

---
 libraries/plumbing/cmdline.cpp              | 2 +-
 libraries/plumbing/initialize.cpp           | 8 ++++----
 libraries/plumbing/input.cpp                | 8 ++++----
 libraries/plumbing/input.h                  | 8 ++++----
 libraries/plumbing/lattice.cpp              | 2 +-
 libraries/plumbing/setup_layout_generic.cpp | 6 +++---
 libraries/plumbing/setup_layout_simple.cpp  | 6 +++---
 libraries/plumbing/setup_layout_vector.cpp  | 8 ++++----
 8 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/libraries/plumbing/cmdline.cpp b/libraries/plumbing/cmdline.cpp
index eed6ff2..acad0b2 100644
--- a/libraries/plumbing/cmdline.cpp
+++ b/libraries/plumbing/cmdline.cpp
@@ -17,7 +17,7 @@ using strvec = std::vector<std::string>;
 ////////////////////////////////////////////////////////////////////////////////
 void cmdlinearguments::quit_with_help() {
     print_help();
-    hila::finishrun();
+    hila::terminate(1);
 }
 
 ////////////////////////////////////////////////////////////////////////////////
diff --git a/libraries/plumbing/initialize.cpp b/libraries/plumbing/initialize.cpp
index f536a11..fcacbe0 100644
--- a/libraries/plumbing/initialize.cpp
+++ b/libraries/plumbing/initialize.cpp
@@ -406,7 +406,7 @@ void setup_output() {
 
     hila::broadcast(do_exit);
     if (do_exit)
-        hila::finishrun();
+        hila::terminate(1);
 }
 
 
@@ -430,7 +430,7 @@ void setup_partitions() {
         if (lnum <= 0) {
             hila::out0 << "partitions <number> command line argument value must be positive "
                           "integer\n";
-            hila::finishrun();
+            hila::terminate(1);
         } else
             hila::partitions.set_number(lnum);
 
@@ -448,7 +448,7 @@ void setup_partitions() {
     if (hila::number_of_nodes() % hila::partitions.number()) {
         hila::out0 << "** " << hila::number_of_nodes() << " nodes not evenly divisible into "
                    << hila::partitions.number() << " partitions\n";
-        hila::finishrun();
+        hila::terminate(1);
     }
 
     hila::out0 << "REST OF OUTPUT TO DIRECTORIES " << partition_dir << "N\n";
@@ -491,7 +491,7 @@ void setup_partitions() {
         hila::broadcast(do_exit);
 
         if (do_exit)
-            hila::finishrun();
+            hila::terminate(1);
 
         hila::out.flush();
         if (!hila::check_input) {
diff --git a/libraries/plumbing/input.cpp b/libraries/plumbing/input.cpp
index 262f254..af1d4c2 100644
--- a/libraries/plumbing/input.cpp
+++ b/libraries/plumbing/input.cpp
@@ -88,7 +88,7 @@ bool input::open(const std::string &file_name, bool use_cmdline, bool exit_on_er
     
     hila::broadcast(got_error);
     if (got_error && exit_on_error) {
-        hila::finishrun();
+        hila::terminate(1);
     }
 
     return !got_error;
@@ -114,7 +114,7 @@ void input::close() {
     }
     hila::broadcast(is_unused);
     if (is_unused)
-        hila::finishrun();
+        hila::terminate(1);
 
     if (speaking)
         hila::print_dashed_line();
@@ -263,7 +263,7 @@ bool input::peek_token(std::string &tok) {
 
     if (in_quotes) {
         hila::out0 << "Error: unbalanced quotes\n";
-        exit(1); // unclean exit
+        hila::terminate(1); // only rank 0 is here
     }
     tok = linebuffer.substr(lb_start, i - lb_start);
     return true;
@@ -423,7 +423,7 @@ int input::get_item(const std::string &label, const std::vector<std::string> &it
 
         // with broadcast exit on error
         if (!no_error)
-            hila::finishrun();
+            hila::terminate(1);
     }
 
     return item;
diff --git a/libraries/plumbing/input.h b/libraries/plumbing/input.h
index f8c8ce7..af2fa8e 100644
--- a/libraries/plumbing/input.h
+++ b/libraries/plumbing/input.h
@@ -137,7 +137,7 @@ class input {
         operator T() {
             T val;
             if (!parent->get_value(val, label, true))
-                hila::finishrun();
+                hila::terminate(1);
             return val;
         }
 
@@ -145,14 +145,14 @@ class input {
         operator Vector<n, T>() {
             Vector<n, T> val;
             if (!parent->get_value(val, label, true))
-                hila::finishrun();
+                hila::terminate(1);
             return val;
         }
 
         operator CoordinateVector() {
             CoordinateVector val;
             if (!parent->get_value(val, label, true))
-                hila::finishrun();
+                hila::terminate(1);
             return val;
         }
 
@@ -162,7 +162,7 @@ class input {
         operator std::vector<T>() {
             std::vector<T> val;
             if (!parent->get_value(val, label, true))
-                hila::finishrun();
+                hila::terminate(1);
             return val;
         }
     };
diff --git a/libraries/plumbing/lattice.cpp b/libraries/plumbing/lattice.cpp
index c936f22..e6a8954 100644
--- a/libraries/plumbing/lattice.cpp
+++ b/libraries/plumbing/lattice.cpp
@@ -29,7 +29,7 @@ void report_too_large_node() {
         hila::out << "\nConsider using more nodes (smaller node size).\n";
         hila::out << "[TODO: allow 64bit index?]\n";
     }
-    hila::finishrun();
+    hila::terminate(1);
 }
 
 
diff --git a/libraries/plumbing/setup_layout_generic.cpp b/libraries/plumbing/setup_layout_generic.cpp
index d6b0a25..3ea4e85 100644
--- a/libraries/plumbing/setup_layout_generic.cpp
+++ b/libraries/plumbing/setup_layout_generic.cpp
@@ -50,7 +50,7 @@ void lattice_struct::setup_layout() {
     if (i != 1) {
         hila::out0 << "Cannot factorize " << nn << " nodes with primes up to " << prime[NPRIMES - 1]
                    << '\n';
-        hila::finishrun();
+        hila::terminate(1);
     }
 
     // strategy: try to increase the box size to one of the directions until rem = 0
@@ -122,7 +122,7 @@ void lattice_struct::setup_layout() {
                 if (dir < 0) {
                     // This cannot happen
                     hila::out0 << "CANNOT HAPPEN! in setup_layout_generic.c\n";
-                    hila::finishrun();
+                    hila::terminate(1);
                 }
 
                 // Now slice it
@@ -140,7 +140,7 @@ void lattice_struct::setup_layout() {
         } else if (fail) {
             hila::out0 << "Could not successfully lay out the lattice with "
                        << hila::number_of_nodes() << " nodes\n";
-            hila::finishrun();
+            hila::terminate(1);
         }
 
     } while (retry);
diff --git a/libraries/plumbing/setup_layout_simple.cpp b/libraries/plumbing/setup_layout_simple.cpp
index ba8eff2..721b201 100644
--- a/libraries/plumbing/setup_layout_simple.cpp
+++ b/libraries/plumbing/setup_layout_simple.cpp
@@ -29,7 +29,7 @@ void lattice_struct::setup_layout() {
     if (l_volume % hila::number_of_nodes()) {
         hila::out0 << " No hope of laying out the lattice using " << hila::number_of_nodes()
                 << " nodes\n";
-        hila::finishrun();
+        hila::terminate(1);
     }
 
     /* Factorize the node number in primes
@@ -46,7 +46,7 @@ void lattice_struct::setup_layout() {
     if (i != 1) {
         hila::out0 << " Cannot factorize " << hila::number_of_nodes() << " nodes with primes up to "
                 << prime[NPRIMES - 1] << '\n';
-        hila::finishrun();
+        hila::terminate(1);
     }
 
     for (i = 0; i < NDIM; i++) {
@@ -90,7 +90,7 @@ void lattice_struct::setup_layout() {
             if (dir < 0) {
                 /* This cannot happen */
                 hila::out0 << "CANNOT HAPPEN! in setup_layout_simple\n";
-                hila::finishrun();
+                hila::terminate(1);
             }
 
             /* Now slice it */
diff --git a/libraries/plumbing/setup_layout_vector.cpp b/libraries/plumbing/setup_layout_vector.cpp
index 29225d8..5b7318a 100644
--- a/libraries/plumbing/setup_layout_vector.cpp
+++ b/libraries/plumbing/setup_layout_vector.cpp
@@ -41,7 +41,7 @@ void lattice_struct::setup_layout() {
         if (l_size[d] % 2 != 0) {
             hila::out0 << "Lattice must be even to all directions for vector/AVX layout.\n"
                        << "Use std layout or GPU for odd sizes\n";
-            hila::finishrun();
+            hila::terminate(1);
         }
 
     // we want to divide up to numnode * vector_size virtual nodes
@@ -66,7 +66,7 @@ void lattice_struct::setup_layout() {
     if (i != 1) {
         hila::out0 << "Cannot factorize " << hila::number_of_nodes() << " nodes with primes up to "
                    << prime[NPRIMES - 1] << '\n';
-        hila::finishrun();
+        hila::terminate(1);
     }
 
     // strategy: try to increase the box size to one of the directions until rem = 0
@@ -155,7 +155,7 @@ void lattice_struct::setup_layout() {
                 if (msize == 1) {
                     // This cannot happen
                     hila::out0 << "CANNOT HAPPEN! in setup_layout_vector.c\n";
-                    hila::finishrun();
+                    hila::terminate(1);
                 }
 
                 // Now slice it
@@ -240,7 +240,7 @@ void lattice_struct::setup_layout() {
             hila::out0 << "  even to directions where the extra divisions are done, "
                           "and node size is even to at least one other direction.\n";
 
-            hila::finishrun();
+            hila::terminate(1);
         }
 
     } while (retry);
-- 
2.43.0


From 8330ae8355a60eef2536d321abcd7585d99c694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:10 +0000
Subject: [PATCH 28/47] fix: damaged multicanonical weight files are refused,
 failed writes are reported

---
 libraries/tools/multicanonical.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index 575e902..681b89c 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -169,6 +169,10 @@ bool Muca::read_weight_function(const std::string &W_function_filename) {
     printf("Weight function has header length of %d rows.\n", header_length);
     printf("Weight function has data length of %d rows.\n", data_length);
     printf("Reading the weight function into the program.\n");
+    if (data_length < 2) {
+        printf("ERROR: No weight function found in file `%s`\n", W_function_filename.c_str());
+        return false;
+    }
 
     // Initialise the weight vectors to correct dimensions
     OP_bin_limits = std::vector<double>(data_length);
@@ -193,10 +197,10 @@ bool Muca::read_weight_function(const std::string &W_function_filename) {
             OP_bin_centers[count] = centre;
             weights[count] = weight;
         }
-        // And the rightmost bin limit.
+        // And the rightmost bin limit, alone on the last row
         if (count == data_length - 1) {
-            if (1 != sscanf(line.c_str(), "%e", &bin_lim)) {
-                printf("ERROR: Could not match `%%e` at %s:%d \n", W_function_filename.c_str(),
+            if (1 != sscanf(line.c_str(), "%e\t%e\t%e", &bin_lim, &centre, &weight)) {
+                printf("ERROR: Could not match `%%e` alone at %s:%d \n", W_function_filename.c_str(),
                        line_no);
                 return false;
             }
@@ -254,6 +258,11 @@ bool Muca::write_weight_function(const std::string &W_function_filename) {
     // Remember to write the last bin upper limit
     to_file(W_file, "%e\n", OP_bin_limits[i]);
     W_file.close();
+    if (W_file.fail()) {
+        printf("WARNING: Writing file `%s` failed: %s\n", W_function_filename.c_str(),
+               std::strerror(errno));
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From cebbc09215d22e7a5af4d81e505b8c1b5ef96fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:10 +0000
Subject: [PATCH 29/47] fix: direct_single weight iteration returns a defined
 status on every step

---
 libraries/tools/multicanonical.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index 681b89c..fbbef31 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -632,7 +632,7 @@ bool iterate_weight_function_direct(Muca &muca, double OP) {
 /// @return boolean indicating whether the iteration is considered complete
 ////////////////////////////////////////////////////////////////////////////////
 bool iterate_weight_function_direct_single(Muca &muca, double OP) {
-    int continue_iteration;
+    int continue_iteration = true;
     if_rank0() {
         int samples = muca.DI.sample_size;
         int N = muca.weights.size();
@@ -672,15 +672,14 @@ bool iterate_weight_function_direct_single(Muca &muca, double OP) {
                            << "\n";
             }
 
-            continue_iteration = true;
-            if (muca.DI.C < muca.DI.C_min) {
-                hila::out0 << "Muca: Reached minimum update size C = " << muca.DI.C
-                           << " Weight iteration complete.\n";
-                continue_iteration = false;
-            }
-
             muca.write_weight_function("intermediate_weight.dat");
         }
+
+        if (muca.DI.C < muca.DI.C_min) {
+            hila::out0 << "Muca: Reached minimum update size C = " << muca.DI.C
+                       << " Weight iteration complete.\n";
+            continue_iteration = false;
+        }
     }
     hila::broadcast(continue_iteration);
     return continue_iteration;
-- 
2.43.0


From ffcc1085d2e8bd08ea4596d294acc5fbc998652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:10 +0000
Subject: [PATCH 30/47] fix: canonical weight iteration handles the last bin
 like the others

---
 libraries/tools/multicanonical.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index fbbef31..fcb924c 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -772,7 +772,7 @@ bool iterate_weight_function_canonical(Muca &muca, double OP) {
             std::swap(muca.CI.noc_weights, muca.weights);
 
             // normalisation necesary if bins with different lengths
-            for (size_t i = 1; i < muca.CI.can_hist.size(); ++i) {
+            for (size_t i = 1; i <= muca.CI.can_hist.size(); ++i) {
                 double bin_width = muca.OP_bin_limits[i] - muca.OP_bin_limits[i - 1];
                 muca.CI.can_hist[i - 1] /= bin_width;
             }
@@ -820,7 +820,7 @@ bool iterate_weight_function_canonical(Muca &muca, double OP) {
                         muca.CI.noc_weights.size() * sizeof(muca.CI.noc_weights[0]));
             double C = muca.CI.OC_factor;
             double d0 = muca.OP_bin_limits[1] - muca.OP_bin_limits[0];
-            for (size_t i = 1; i < muca.weights.size(); ++i) {
+            for (size_t i = 1; i <= muca.weights.size(); ++i) {
                 double bin_width = muca.OP_bin_limits[i] - muca.OP_bin_limits[i - 1];
                 muca.weights[i - 1] +=
                     C * ::log((d0 / bin_width) * muca.CI.hits_nsum[i - 1] / muca.CI.hits_nsum[0]);
-- 
2.43.0


From 6b5f6b54acc1f77b38977a3b8676fac1b4ba4b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:10 +0000
Subject: [PATCH 31/47] fix: no division by zero in canonical weight iteration
 with CI_max_iters < 100

---
 libraries/tools/multicanonical.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index fcb924c..68c15c6 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -833,7 +833,7 @@ bool iterate_weight_function_canonical(Muca &muca, double OP) {
             if (muca.CI.weight_update_count > muca.CI.max_iters)
                 continue_iteration = false;
             // print progress
-            if (muca.CI.weight_update_count % (muca.CI.max_iters / 100) == 0)
+            if (muca.CI.weight_update_count % std::max(1, muca.CI.max_iters / 100) == 0)
                 printf("Muca: iteration %d / %d\n", muca.CI.weight_update_count, muca.CI.max_iters);
         }
     }
-- 
2.43.0


From 58705d1c4968222088d78393c6e1f35f4d2ee744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 32/47] fix: read_fields() compiles and reads what
 write_fields() wrote

---
 libraries/plumbing/field_io.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/field_io.h b/libraries/plumbing/field_io.h
index c364430..861ccd8 100644
--- a/libraries/plumbing/field_io.h
+++ b/libraries/plumbing/field_io.h
@@ -336,12 +336,12 @@ void Field<T>::read(const std::string &filename) {
 // Read a list of fields from an input stream
 template <typename T>
 static void read_fields(std::ifstream &inputfile, Field<T> &last) {
-    last.read_from_stream(inputfile);
+    last.read(inputfile);
 }
 
 template <typename T, typename... fieldtypes>
 static void read_fields(std::ifstream &inputfile, Field<T> &next, fieldtypes &...fields) {
-    next.read_from_stream(inputfile);
+    next.read(inputfile);
     read_fields(inputfile, fields...);
 }
 
-- 
2.43.0


From 88cceeebd4d2d5235a0da8726f672d9eab4f083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 33/47] fix: config_read() refuses a file with an impossible or
 truncated header

---
 libraries/plumbing/gaugefield.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/gaugefield.h b/libraries/plumbing/gaugefield.h
index 1484a6f..6c56f44 100644
--- a/libraries/plumbing/gaugefield.h
+++ b/libraries/plumbing/gaugefield.h
@@ -223,7 +223,7 @@ class GaugeField {
 
         // read header
         bool ok = true;
-        int64_t f;
+        int64_t f = 0;
         if_rank0() {
             inputfile.read(reinterpret_cast<char *>(&f), sizeof(int64_t));
             ok = (f == config_flag);
@@ -252,9 +252,11 @@ class GaugeField {
         if (ok && hila::myrank() == 0) {
             foralldir (d) {
                 inputfile.read(reinterpret_cast<char *>(&f), sizeof(int64_t));
-                insize[d] = f;
-                ok = ok && (lattice.size(d) % insize[d] == 0);
-                if (!ok)
+                ok = ok && inputfile.good() && f > 0 && f <= lattice.size(d) &&
+                     (lattice.size(d) % f == 0);
+                if (ok)
+                    insize[d] = f;
+                else
                     hila::out0 << conferr << "incorrect lattice dimension " << hila::prettyprint(d)
                                << " is " << f << " should be (or divide)" << lattice.size(d)
                                << '\n';
-- 
2.43.0


From 3a8f69b7d70ef6d3510715be28d6aa6624953726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 34/47] fix: a killed or failed checkpoint leaves the previous
 one restorable

---
 libraries/tools/checkpoint.h | 54 +++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/libraries/tools/checkpoint.h b/libraries/tools/checkpoint.h
index d00b1df..67092a2 100644
--- a/libraries/tools/checkpoint.h
+++ b/libraries/tools/checkpoint.h
@@ -14,6 +14,25 @@
 
 /// parameters-type must
 
+/// A checkpoint consists of two files, the config file and "run_status".  In order to have these
+/// always belong together, the new checkpoint is first written to
+///     config_file.tmp   and   run_status.new,
+/// and when these are complete they are taken into use with renames:
+///     config_file.tmp -> config_file.new,
+///     run_status.new -> run_status,           -- now the checkpoint is valid
+///     config_file -> config_file.prev (if old is saved), config_file.new -> config_file.
+/// If the program ends before run_status is renamed the previous checkpoint remains in use.
+/// If it ends after it, config_file.new exists without run_status.new and the last step is done at
+/// restore.
+
+/// Last step of the checkpointing, called by rank 0 only
+inline void finish_checkpoint_files(const std::string &config_file, bool save_old) {
+    if (filesys_ns::exists(config_file + ".new")) {
+        if (save_old && filesys_ns::exists(config_file))
+            filesys_ns::rename(config_file, config_file + ".prev");
+        filesys_ns::rename(config_file + ".new", config_file);
+    }
+}
 
 template <typename group>
 void checkpoint(const GaugeField<group> &U, const std::string &config_file, int &n_trajectories,
@@ -21,13 +40,8 @@ void checkpoint(const GaugeField<group> &U, const std::string &config_file, int
 
     double t = hila::gettime();
 
-    if (save_old && hila::myrank() == 0 && filesys_ns::exists(config_file)) {
-        filesys_ns::rename(config_file, config_file + ".prev");
-        // rename config to config.prev
-    }
-
     // save config
-    U.config_write(config_file);
+    U.config_write(config_file + ".tmp");
 
 
     // check if n_trajectories has changed
@@ -44,17 +58,31 @@ void checkpoint(const GaugeField<group> &U, const std::string &config_file, int
         status.close();
     }
 
+    bool ok = true;
     if_rank0() {
 
         // write the status file
         std::ofstream outf;
-        outf.open("run_status", std::ios::out | std::ios::trunc);
+        outf.open("run_status.new", std::ios::out | std::ios::trunc);
         outf << "trajectories " << n_trajectories
              << "   # CHANGE TO ADJUST NUMBER OF TRAJECTORIES IN THIS RUN\n";
         outf << "trajectory   " << trajectory + 1 << '\n';
         outf << "seed         " << static_cast<uint64_t>(hila::random() * (1UL << 61)) << '\n';
         outf << "time         " << hila::gettime() << '\n';
         outf.close();
+        ok = !outf.fail();
+        if (!ok)
+            hila::out0 << "ERROR in writing file run_status.new\n";
+    }
+    if (!hila::broadcast(ok))
+        hila::terminate(1);
+
+    if_rank0() {
+        // both files are complete, take them into use
+        filesys_ns::rename(config_file + ".tmp", config_file + ".new");
+        filesys_ns::rename("run_status.new", "run_status");
+        // rename config to config.prev
+        finish_checkpoint_files(config_file, save_old);
 
         std::stringstream msg;
         msg << "Checkpointing, time " << hila::gettime() - t;
@@ -69,6 +97,18 @@ bool restore_checkpoint(GaugeField<group> &U, const std::string &config_file, in
                         int &trajectory) {
     uint64_t seed;
     bool ok = true;
+
+    // was the previous run interrupted during checkpoint?
+    if_rank0() {
+        if (filesys_ns::exists("run_status.new")) {
+            filesys_ns::remove(config_file + ".new");
+            filesys_ns::remove("run_status.new");
+        } else {
+            finish_checkpoint_files(config_file, true);
+        }
+    }
+    hila::synchronize();
+
     hila::input status;
     if (status.open("run_status", false, false)) {
         hila::out0 << "RESTORING FROM CHECKPOINT:\n";
-- 
2.43.0


From a31c14ff90cb595fcb6860d5a9464093c462296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 35/47] fix: get_wloop_force() and get_wloop_force_from_wl()
 compile

---
 libraries/gauge/wilson_line_and_force.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/gauge/wilson_line_and_force.h b/libraries/gauge/wilson_line_and_force.h
index dc17d54..408e9b5 100644
--- a/libraries/gauge/wilson_line_and_force.h
+++ b/libraries/gauge/wilson_line_and_force.h
@@ -113,7 +113,7 @@ void get_wloop_force_from_wl(const GaugeField<group> &U, const std::vector<Direc
     foralldir(d1) {
         K[d1][ALL] = 0;
     }
-    get_wloop_froce_add(U, path, W, eps, K);
+    get_wloop_force_from_wl_add(U, path, W, eps, K);
 }
 
 template <typename group, typename atype = hila::arithmetic_type<group>>
@@ -161,7 +161,7 @@ void get_wloop_force(const GaugeField<group> &U, const std::vector<Direction> &p
     foralldir(d1) {
         K[d1][ALL] = 0;
     }
-    get_wloop_froce_add(U, path, eps, K);
+    get_wloop_force_add(U, path, eps, K);
 }
 
 
-- 
2.43.0


From 0949a660bff9c16998757eb5b4a7f80405f81aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 36/47] fix: an error in one partition ends the job of all
 partitions

---
 libraries/plumbing/com_mpi.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/libraries/plumbing/com_mpi.cpp b/libraries/plumbing/com_mpi.cpp
index 721d3cf..fe6b397 100644
--- a/libraries/plumbing/com_mpi.cpp
+++ b/libraries/plumbing/com_mpi.cpp
@@ -216,20 +216,21 @@ bool hila::is_comm_initialized(void) {
 void hila::abort_communications(int status) {
     if (mpi_initialized) {
         mpi_initialized = false;
-        MPI_Abort(lattice->mpi_comm_lat, status != 0 ? status : 1);
+        MPI_Abort(MPI_COMM_WORLD, status != 0 ? status : 1);
     }
 }
 
 /* Called in hila::terminate(): returns true if all nodes are terminating. Does not wait forever,
-   because the other nodes may be doing anything */
+   because the other nodes may be doing anything.  Nodes of all partitions are counted, because the
+   others would wait for this partition at the end of the run */
 
 #define MSG_TAG_TERMINATE 32767
 #define TERMINATE_WAIT_SECONDS 5
 
 bool hila::all_ranks_terminating() {
     int n_ranks, rank;
-    MPI_Comm_size(lattice->mpi_comm_lat, &n_ranks);
-    MPI_Comm_rank(lattice->mpi_comm_lat, &rank);
+    MPI_Comm_size(MPI_COMM_WORLD, &n_ranks);
+    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
 
     // all nodes report to rank 0, which answers when everybody has reported
     static char in = 0, out = 0;
@@ -238,12 +239,12 @@ bool hila::all_ranks_terminating() {
     if (rank == 0) {
         for (int r = 1; r < n_ranks; r++) {
             req.emplace_back();
-            MPI_Irecv(&in, 0, MPI_BYTE, r, MSG_TAG_TERMINATE, lattice->mpi_comm_lat, &req.back());
+            MPI_Irecv(&in, 0, MPI_BYTE, r, MSG_TAG_TERMINATE, MPI_COMM_WORLD, &req.back());
         }
     } else {
         req.resize(2);
-        MPI_Isend(&out, 0, MPI_BYTE, 0, MSG_TAG_TERMINATE, lattice->mpi_comm_lat, &req[0]);
-        MPI_Irecv(&in, 0, MPI_BYTE, 0, MSG_TAG_TERMINATE, lattice->mpi_comm_lat, &req[1]);
+        MPI_Isend(&out, 0, MPI_BYTE, 0, MSG_TAG_TERMINATE, MPI_COMM_WORLD, &req[0]);
+        MPI_Irecv(&in, 0, MPI_BYTE, 0, MSG_TAG_TERMINATE, MPI_COMM_WORLD, &req[1]);
     }
 
     double start = hila::gettime();
@@ -258,7 +259,7 @@ bool hila::all_ranks_terminating() {
 
     if (rank == 0) {
         for (int r = 1; r < n_ranks; r++)
-            MPI_Send(&out, 0, MPI_BYTE, r, MSG_TAG_TERMINATE, lattice->mpi_comm_lat);
+            MPI_Send(&out, 0, MPI_BYTE, r, MSG_TAG_TERMINATE, MPI_COMM_WORLD);
     }
 
     return true;
-- 
2.43.0


From 4bac99490828bf36f3f0a155c8dd5be4404e8a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 37/47] fix: product reductions in OpenMP loops multiply

---
 hilapp/src/codegen_cpu.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hilapp/src/codegen_cpu.cpp b/hilapp/src/codegen_cpu.cpp
index 8af126a..b6ff19a 100644
--- a/hilapp/src/codegen_cpu.cpp
+++ b/hilapp/src/codegen_cpu.cpp
@@ -134,7 +134,12 @@ std::string TopLevelVisitor::generate_code_cpu(Stmt *S, bool semicolon_at_end, s
                 if (r.reduction_type != reduction::NONE &&
                     get_number_type(r.type) == number_type::UNKNOWN) {
                     code << "#pragma omp declare reduction(_hila_reduction_sum" << sums << ":"
-                         << r.type << ":omp_out += omp_in)\n";
+                         << r.type;
+                    if (r.reduction_type == reduction::PRODUCT)
+                        // the reduction variable is initialized to 1 before the loop
+                        code << ":omp_out *= omp_in) initializer(omp_priv = omp_orig)\n";
+                    else
+                        code << ":omp_out += omp_in)\n";
                     sums++;
                 }
             }
@@ -151,7 +156,7 @@ std::string TopLevelVisitor::generate_code_cpu(Stmt *S, bool semicolon_at_end, s
                         code << "_hila_reduction_sum" << sums;
                         sums++;
                     } else {
-                        code << '+';
+                        code << (r.reduction_type == reduction::PRODUCT ? '*' : '+');
                     }
                     code << ": " << r.reduction_name << ")";
                 }
-- 
2.43.0


From 323ed686748baf2e4f0de0a60d65ab3d0f39cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 38/47] fix: min() and max() have no data race in OpenMP
 programs

---
 hilapp/src/codegen.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hilapp/src/codegen.cpp b/hilapp/src/codegen.cpp
index 2ecc5bc..e34e6ee 100644
--- a/hilapp/src/codegen.cpp
+++ b/hilapp/src/codegen.cpp
@@ -609,7 +609,9 @@ void TopLevelVisitor::handle_reduction_result(std::stringstream &code) {
         }
     }
 
-    code << "hila::set_allreduce(true);\n";
+    // inside omp parallel region all threads would write the flag at the same time
+    if (!loop_info.has_pragma_omp_parallel_region)
+        code << "hila::set_allreduce(true);\n";
 
 
     // and vector reductions
-- 
2.43.0


From 198f700fffbcce24977a72f65fbfc17c5ed742ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 39/47] fix: OpenMP sum reductions of class types start from
 zero

---
 hilapp/src/codegen_cpu.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hilapp/src/codegen_cpu.cpp b/hilapp/src/codegen_cpu.cpp
index b6ff19a..f8a18a2 100644
--- a/hilapp/src/codegen_cpu.cpp
+++ b/hilapp/src/codegen_cpu.cpp
@@ -135,11 +135,12 @@ std::string TopLevelVisitor::generate_code_cpu(Stmt *S, bool semicolon_at_end, s
                     get_number_type(r.type) == number_type::UNKNOWN) {
                     code << "#pragma omp declare reduction(_hila_reduction_sum" << sums << ":"
                          << r.type;
-                    if (r.reduction_type == reduction::PRODUCT)
-                        // the reduction variable is initialized to 1 before the loop
-                        code << ":omp_out *= omp_in) initializer(omp_priv = omp_orig)\n";
-                    else
-                        code << ":omp_out += omp_in)\n";
+                    // the reduction variable is set to 0 or 1 before the loop: use it to
+                    // initialize the private copies.  Without initializer these are left
+                    // uninitialized if the default constructor does not set the value
+                    code << (r.reduction_type == reduction::PRODUCT ? ":omp_out *= omp_in)"
+                                                                    : ":omp_out += omp_in)")
+                         << " initializer(omp_priv = omp_orig)\n";
                     sums++;
                 }
             }
-- 
2.43.0


From 6ce779ac7596edea47255bca7ad6ba18fdba6e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 40/47] fix: OpenMP reduction variables of class types start
 from 0 or 1 in every pass over the loop

---
 hilapp/src/codegen_cpu.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hilapp/src/codegen_cpu.cpp b/hilapp/src/codegen_cpu.cpp
index f8a18a2..e499920 100644
--- a/hilapp/src/codegen_cpu.cpp
+++ b/hilapp/src/codegen_cpu.cpp
@@ -135,12 +135,13 @@ std::string TopLevelVisitor::generate_code_cpu(Stmt *S, bool semicolon_at_end, s
                     get_number_type(r.type) == number_type::UNKNOWN) {
                     code << "#pragma omp declare reduction(_hila_reduction_sum" << sums << ":"
                          << r.type;
-                    // the reduction variable is set to 0 or 1 before the loop: use it to
-                    // initialize the private copies.  Without initializer these are left
-                    // uninitialized if the default constructor does not set the value
-                    code << (r.reduction_type == reduction::PRODUCT ? ":omp_out *= omp_in)"
-                                                                    : ":omp_out += omp_in)")
-                         << " initializer(omp_priv = omp_orig)\n";
+                    // set the private copies to 0 or 1, as the reduction variable itself is
+                    // (omp_orig does not do: this loop can be run twice)
+                    bool product = (r.reduction_type == reduction::PRODUCT);
+                    code << (product ? ":omp_out *= omp_in)" : ":omp_out += omp_in)")
+                         << " initializer(omp_priv = [] { " << r.type << " _hila_init; "
+                         << "_hila_init = " << (product ? '1' : '0') << "; "
+                         << "return _hila_init; }())\n";
                     sums++;
                 }
             }
-- 
2.43.0


From c4a477c6d8cc06b84c86910d94a202010a4284b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 41/47] fix: sums into data members are reduced over the ranks

A site loop in a method which adds to a data member (or to a Reduction
member or an element of an array of Reductions) was not recognised as a
reduction: every rank kept its own partial sum.
---
 hilapp/src/codegen.cpp         |  6 +++++-
 hilapp/src/toplevelvisitor.cpp | 18 ++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/hilapp/src/codegen.cpp b/hilapp/src/codegen.cpp
index e34e6ee..1a14134 100644
--- a/hilapp/src/codegen.cpp
+++ b/hilapp/src/codegen.cpp
@@ -86,7 +86,11 @@ void TopLevelVisitor::create_reduction_list(std::list<var_info> &vi_list,
             re.type = r.type;
             for (auto &eref : r.refs)
                 re.refs.push_back(eref);
-            re.is_special_reduction = false;
+            re.is_special_reduction = (re.type.find("Reduction<") == 0);
+            if (re.is_special_reduction) {
+                // type is Reduction< ... >, take the type of the value
+                re.type = re.type.substr(10, re.type.rfind('>') - 10);
+            }
             re.variable = nullptr;
 
             if (target.vectorize) {
diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index 24c2c91..ff8c15d 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -944,6 +944,9 @@ void TopLevelVisitor::handle_loop_const_expr_ref(Expr *E, bool is_assign, std::s
     // First, get the string rep of the expression
     std::string expression = get_stmt_str(E);
     std::string expstr = remove_all_whitespace(expression);
+    // the same member with and without this->
+    if (expstr.find("this->") == 0)
+        expstr = expstr.substr(6);
 
     if (is_assign && assignop != "+=") {
         reportDiag(DiagnosticsEngine::Level::Error, E->getSourceRange().getBegin(),
@@ -1296,6 +1299,21 @@ bool TopLevelVisitor::handle_loop_body_stmt(Stmt *s) {
 
         if (MemberExpr *ME = dyn_cast<MemberExpr>(E)) {
 
+            // sum reduction to a data member of the object whose method this is. (Members of
+            // variables are handled with the variable.)
+            if (is_assignment && (assignop == "+=" || assignop == "*=") &&
+                isa<FieldDecl>(ME->getMemberDecl())) {
+                Expr *root = find_root_variable(ME);
+                if (root && isa<CXXThisExpr>(root)) {
+
+                    handle_loop_const_expr_ref(E, is_assignment, assignop);
+
+                    parsing_state.skip_children = 1;
+                    is_assignment = false;
+                    return true;
+                }
+            }
+
             // nothing to do if not loop const (PROBABLY?)
             // Check also the type: if it is not trivial, don't know what to do here
             if (!is_assignment && is_loop_constant(E) && ME->getType().isTrivialType(*Context)) {
-- 
2.43.0


From 5250ef4c6311464ed1c93c27ac55a4b470e893f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 42/47] fix: fields which have not been set can be moved

Growing a std::vector of Fields crashed in the move constructor.
---
 libraries/plumbing/field.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/field.h b/libraries/plumbing/field.h
index 229de5f..95f5dae 100644
--- a/libraries/plumbing/field.h
+++ b/libraries/plumbing/field.h
@@ -442,7 +442,8 @@ class Field {
      * @param rhs
      */
     Field(Field &&rhs) noexcept {
-        assert(rhs.fs->mylattice.ptr() == lattice.ptr());
+        // rhs may be a field which has not been set
+        assert(rhs.fs == nullptr || rhs.fs->mylattice.ptr() == lattice.ptr());
         fs = rhs.fs;
         rhs.fs = nullptr;
     }
@@ -984,7 +985,8 @@ class Field {
      */
     Field<T> &operator=(Field<T> &&rhs) noexcept {
         if (this != &rhs) {
-            assert((fs == nullptr || (rhs.fs->mylattice.ptr() == fs->mylattice.ptr())) &&
+            assert((fs == nullptr || rhs.fs == nullptr ||
+                    (rhs.fs->mylattice.ptr() == fs->mylattice.ptr())) &&
                    "Field = Field assignment possible only if fields belong to the same lattice");
             clear();
             fs = rhs.fs;
-- 
2.43.0


From 33065d095d709a8093a75936ec7b89e86ae686fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 43/47] fix: neighbours more than 100 steps away

The buffers of the intermediate shifts were in a vector, which moved them
away from under references when it grew beyond its initial capacity.
---
 libraries/plumbing/field.h      | 4 +++-
 libraries/plumbing/field_comm.h | 4 ----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/libraries/plumbing/field.h b/libraries/plumbing/field.h
index 95f5dae..79a23a2 100644
--- a/libraries/plumbing/field.h
+++ b/libraries/plumbing/field.h
@@ -11,6 +11,7 @@
 #include <iostream>
 #include <string>
 #include <cstring> //Memcpy is here...
+#include <deque>
 #include <math.h>
 #include <type_traits>
 
@@ -117,7 +118,8 @@ class Field {
             Parity par;
         };
 
-        std::vector<shift_buffer_struct> shift_buffer;
+        // a deque: references to elements stay valid when elements are added
+        std::deque<shift_buffer_struct> shift_buffer;
 #endif
 
 
diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index f627b09..30c42cf 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -300,10 +300,6 @@ void Field<T>::buffered_shift_offsets(const CoordinateVector &v, Parity par) con
     if (v.norm_L1() == 0)
         return;
 
-    // alloc enough storage, so that no new allocs are needed - cheap!
-    if (fs->shift_buffer.capacity() == 0)
-        fs->shift_buffer.reserve(100);
-
     // Do we have the shift?
     for (auto &r : fs->shift_buffer) {
         if (r.offset == v) {
-- 
2.43.0


From db390afedc11c05abcad4addef5213728dd7b974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:51 +0000
Subject: [PATCH 44/47] fix: a failing allocation of the command line arguments
 is noticed

---
 libraries/plumbing/cmdline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/cmdline.cpp b/libraries/plumbing/cmdline.cpp
index acad0b2..3e70294 100644
--- a/libraries/plumbing/cmdline.cpp
+++ b/libraries/plumbing/cmdline.cpp
@@ -59,7 +59,7 @@ cmdlinearguments::cmdlinearguments() {}
 ////////////////////////////////////////////////////////////////////////////////
 void cmdlinearguments::initialise_args(int argc0, char **argv0) {
     myargc = argc0;
-    myargv = (const char **)malloc(myargc * sizeof(const char *));
+    myargv = (const char **)memalloc(myargc * sizeof(const char *));
     for (int i = 0; i < myargc; i++)
         myargv[i] = argv0[i];
 
-- 
2.43.0


From b44fd196bcbeeb133fa2002912d93350061a5d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:51 +0000
Subject: [PATCH 45/47] fix: a failing allocation for FFTW is noticed

---
 libraries/plumbing/fft_fftw_transform.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libraries/plumbing/fft_fftw_transform.h b/libraries/plumbing/fft_fftw_transform.h
index 8ab1ec8..2aaaf7b 100644
--- a/libraries/plumbing/fft_fftw_transform.h
+++ b/libraries/plumbing/fft_fftw_transform.h
@@ -49,6 +49,11 @@ inline void hila_fft<cmplx_t>::transform() {
             fftwf_plan_dft_1d(lattice.size(dir), fftwbuf, fftwbuf, transform_dir, FFTW_ESTIMATE);
     }
 
+    if (fftwbuf == nullptr || fftwplan == nullptr) {
+        hila::out << " *** FFTW failed to allocate memory\n" << std::flush;
+        hila::terminate(1);
+    }
+
     fft_plan_timer.stop();
 
     for (size_t i = 0; i < n_fft; i++) {
-- 
2.43.0


From 7c5b4bcdd24a7711b14685fb2f4e6ca78f06ceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:51 +0000
Subject: [PATCH 46/47] fix: PlaquetteField::config_read() refuses a file with
 an impossible or truncated header

---
 libraries/plumbing/plaquettefield.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/plaquettefield.h b/libraries/plumbing/plaquettefield.h
index 371c544..f41ad20 100644
--- a/libraries/plumbing/plaquettefield.h
+++ b/libraries/plumbing/plaquettefield.h
@@ -161,7 +161,7 @@ class PlaquetteField {
 
         // read header
         bool ok = true;
-        int64_t f;
+        int64_t f = 0;
         if_rank0() {
             inputfile.read(reinterpret_cast<char *>(&f), sizeof(int64_t));
             ok = (f == config_flag);
@@ -191,9 +191,11 @@ class PlaquetteField {
 
             foralldir(d) {
                 inputfile.read(reinterpret_cast<char *>(&f), sizeof(int64_t));
-                insize[d] = f;
-                ok = ok && (lattice.size(d) % insize[d] == 0);
-                if (!ok)
+                ok = ok && inputfile.good() && f > 0 && f <= lattice.size(d) &&
+                     (lattice.size(d) % f == 0);
+                if (ok)
+                    insize[d] = f;
+                else
                     hila::out0 << conferr << "incorrect lattice dimension " << hila::prettyprint(d)
                                << " is " << f << " should be (or divide) " << lattice.size(d) << '\n';
             }
-- 
2.43.0


From 66f1c3a5c34655a52346a44a74f200c6a5bc2166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:51 +0000
Subject: [PATCH 47/47] fix: fields are written and read on their own lattice
 when another one is active

---
 libraries/plumbing/field_comm.h | 34 ++++++++++++++++-----------------
 libraries/plumbing/field_io.h   |  2 +-
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 30c42cf..9df40d7 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -846,7 +846,7 @@ void Field<T>::field_struct::gather_elements(T *RESTRICT buffer,
     assert_all_ranks_present();
 
     std::vector<unsigned> index_list;
-    std::vector<int> sites_on_rank(lattice->nodes.number);
+    std::vector<int> sites_on_rank(mylattice->nodes.number);
     std::vector<int> reshuffle_list(coord_list.size());
 
     std::fill(sites_on_rank.begin(), sites_on_rank.end(), 0);
@@ -855,9 +855,9 @@ void Field<T>::field_struct::gather_elements(T *RESTRICT buffer,
 
     int i = 0;
     for (const CoordinateVector &c : coord_list) {
-        int rank = lattice->node_rank(c);
+        int rank = mylattice->node_rank(c);
         if (hila::myrank() == rank) {
-            index_list.push_back(lattice->site_index(c));
+            index_list.push_back(mylattice->site_index(c));
         }
 
         if (sites_on_rank[rank] == 0 && rank != root)
@@ -868,10 +868,10 @@ void Field<T>::field_struct::gather_elements(T *RESTRICT buffer,
 
     std::vector<T> send_buffer(index_list.size());
     payload.gather_elements((T *)send_buffer.data(), index_list.data(), send_buffer.size(),
-                            lattice);
+                            mylattice);
     if (hila::myrank() != root && sites_on_rank[hila::myrank()] > 0) {
         MPI_Send((char *)send_buffer.data(), sites_on_rank[hila::myrank()] * sizeof(T), MPI_BYTE,
-                 root, hila::myrank(), lattice->mpi_comm_lat);
+                 root, hila::myrank(), mylattice->mpi_comm_lat);
     }
     if (hila::myrank() == root) {
 
@@ -880,7 +880,7 @@ void Field<T>::field_struct::gather_elements(T *RESTRICT buffer,
         std::vector<T> pb(coord_list.size() - sites_on_rank[root]);
         b = pb.data();
         // vector for node ptrs -- point to stuff from nodes
-        std::vector<T *> nptr(lattice->nodes.number);
+        std::vector<T *> nptr(mylattice->nodes.number);
 
         std::vector<MPI_Request> mpi_req(nranks);
         int nreqs = 0;
@@ -889,7 +889,7 @@ void Field<T>::field_struct::gather_elements(T *RESTRICT buffer,
                 if (n != root) {
                     MPI_Status status;
                     MPI_Irecv(b, (int)(sites_on_rank[n] * sizeof(T)), MPI_BYTE, n, n,
-                              lattice->mpi_comm_lat, &mpi_req[nreqs++]);
+                              mylattice->mpi_comm_lat, &mpi_req[nreqs++]);
 
                     nptr[n] = b;
                     b += sites_on_rank[n];
@@ -924,16 +924,16 @@ void Field<T>::field_struct::scatter_elements(T *RESTRICT buffer,
     assert_all_ranks_present();
 
     std::vector<unsigned> index_list;
-    std::vector<int> sites_on_rank(lattice->nodes.number);
+    std::vector<int> sites_on_rank(mylattice->nodes.number);
     std::vector<int> reshuffle_list(coord_list.size());
     std::fill(sites_on_rank.begin(), sites_on_rank.end(), 0);
 
     int nranks = 0;
     size_t i = 0;
     for (CoordinateVector c : coord_list) {
-        int rank = lattice->node_rank(c);
+        int rank = mylattice->node_rank(c);
         if (hila::myrank() == rank) {
-            index_list.push_back(lattice->site_index(c));
+            index_list.push_back(mylattice->site_index(c));
         }
 
         if (sites_on_rank[rank] == 0 && rank != root)
@@ -950,20 +950,20 @@ void Field<T>::field_struct::scatter_elements(T *RESTRICT buffer,
         MPI_Status status;
 
         MPI_Recv((char *)recv_buffer.data(), sites_on_rank[hila::myrank()] * sizeof(T), MPI_BYTE,
-                 root, hila::myrank(), lattice->mpi_comm_lat, &status);
+                 root, hila::myrank(), mylattice->mpi_comm_lat, &status);
 
         payload.place_elements((T *)recv_buffer.data(), index_list.data(), recv_buffer.size(),
-                               lattice);
+                               mylattice);
     }
     if (hila::myrank() == root) {
         // reordering buffers
         std::vector<T> pb(coord_list.size());
         // vector for node counters -- point to stuff from nodes
-        std::vector<unsigned> nloc(lattice->nodes.number);
-        std::vector<unsigned> ncount(lattice->nodes.number);
+        std::vector<unsigned> nloc(mylattice->nodes.number);
+        std::vector<unsigned> ncount(mylattice->nodes.number);
         nloc[0] = ncount[0] = 0;
 
-        for (int n = 1; n < lattice->nodes.number; n++) {
+        for (int n = 1; n < mylattice->nodes.number; n++) {
             nloc[n] = nloc[n - 1] + sites_on_rank[n - 1];
             ncount[n] = 0;
         }
@@ -978,13 +978,13 @@ void Field<T>::field_struct::scatter_elements(T *RESTRICT buffer,
             if (sites_on_rank[n] > 0) {
                 if (n != root) {
                     MPI_Isend(pb.data() + nloc[n], (int)(sites_on_rank[n] * sizeof(T)), MPI_BYTE, n,
-                              n, lattice->mpi_comm_lat, &mpi_req[nreqs++]);
+                              n, mylattice->mpi_comm_lat, &mpi_req[nreqs++]);
                 }
             }
         }
         if (sites_on_rank[root] > 0) {
             payload.place_elements(pb.data() + nloc[root], index_list.data(), index_list.size(),
-                                   lattice);
+                                   mylattice);
         }
         if (nreqs > 0) {
             std::vector<MPI_Status> stat_arr(nreqs);
diff --git a/libraries/plumbing/field_io.h b/libraries/plumbing/field_io.h
index 861ccd8..75691d1 100644
--- a/libraries/plumbing/field_io.h
+++ b/libraries/plumbing/field_io.h
@@ -274,7 +274,7 @@ void Field<T>::read(std::ifstream &inputfile, const CoordinateVector &insize) {
     if_rank0 ()
         buffer = (T *)memalloc(read_size);
 
-    CoordinateVector lsize = lattice.size();
+    CoordinateVector lsize = fs->mylattice.size();
     int scalef[NDIM];
     size_t tvol = 1;
     size_t scvol = 1;
-- 
2.43.0

