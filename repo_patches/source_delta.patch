From 427774cec6e1318017ed295b79638bebf92b095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 001/196] fix: JArray_PSuP left the neighbours of vertex 0
 empty (flag value 0 is a valid vertex index)

---
 include/delfem2/dtri_topology.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/dtri_topology.cpp b/include/delfem2/dtri_topology.cpp
index 01a3c40..edc091a 100644
--- a/include/delfem2/dtri_topology.cpp
+++ b/include/delfem2/dtri_topology.cpp
@@ -101,7 +101,7 @@ DFM2_INLINE void delfem2::JArray_PSuP(
     const unsigned int npoin,
     const std::vector<int> &elsup_ind,
     const std::vector<int> &elsup) {
-  std::vector<unsigned int> aflg(npoin, 0);
+  std::vector<unsigned int> aflg(npoin, UINT_MAX);
   psup_ind[0] = 0;
   for (unsigned int ino = 0; ino < npoin; ino++) {
     psup_ind[ino + 1] = psup_ind[ino];
@@ -117,7 +117,7 @@ DFM2_INLINE void delfem2::JArray_PSuP(
   }
   const int npsup = psup_ind[npoin];
   psup.resize(npsup);
-  for (unsigned int ino = 0; ino < npoin; ino++) { aflg[ino] = 0; }
+  for (unsigned int ino = 0; ino < npoin; ino++) { aflg[ino] = UINT_MAX; }
   unsigned int iedge = 0;
   for (unsigned int ino = 0; ino < npoin; ino++) {
     assert(psup_ind[ino] == (int) iedge);
-- 
2.43.0


From 83160f9757e06609a005f05b2263af5a5009d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:51 +0000
Subject: [PATCH 002/196] fix: parallel_for skipped every iteration when the
 number of cores is unknown (hardware_concurrency() == 0)

---
 include/delfem2/thread.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/thread.h b/include/delfem2/thread.h
index 74e2bbf..94ff53c 100644
--- a/include/delfem2/thread.h
+++ b/include/delfem2/thread.h
@@ -8,6 +8,7 @@
 #ifndef DFM2_THREAD_H
 #define DFM2_THREAD_H
 
+#include <algorithm>
 #include <functional>
 #include <future>
 #include <mutex>
@@ -26,7 +27,7 @@ inline void parallel_for(
   auto futures = std::vector<std::future<void>>{};
 
   const unsigned int nthreads = (target_concurrency == 0) ?
-                                std::thread::hardware_concurrency() : target_concurrency;
+                                std::max(1u, std::thread::hardware_concurrency()) : target_concurrency;
   std::atomic<T> next_idx(0);
   std::atomic<bool> has_error(false);
   for (auto thread_id = 0; thread_id < (int) nthreads; thread_id++) {
@@ -56,7 +57,7 @@ inline void parallel_for(
     unsigned int target_concurrency = 0) {
   auto futures = std::vector<std::future<void>>{};
   const unsigned int nthreads = (target_concurrency == 0) ?
-                                std::thread::hardware_concurrency() : target_concurrency;
+                                std::max(1u, std::thread::hardware_concurrency()) : target_concurrency;
   std::atomic<T> next_idx(0);
   std::atomic<bool> has_error(false);
   for (auto thread_id = 0; thread_id < (int) nthreads; thread_id++) {
-- 
2.43.0


From eca22a684623dc3863faf214cd6e990f52f8ca4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:51 +0000
Subject: [PATCH 003/196] fix: parallel_for ran indices again when its counter
 wrapped around in a narrow index type

---
 include/delfem2/thread.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/thread.h b/include/delfem2/thread.h
index 94ff53c..a17253e 100644
--- a/include/delfem2/thread.h
+++ b/include/delfem2/thread.h
@@ -28,7 +28,7 @@ inline void parallel_for(
 
   const unsigned int nthreads = (target_concurrency == 0) ?
                                 std::max(1u, std::thread::hardware_concurrency()) : target_concurrency;
-  std::atomic<T> next_idx(0);
+  std::atomic<long long> next_idx(0);  // wider than T: every worker increments it once past the end
   std::atomic<bool> has_error(false);
   for (auto thread_id = 0; thread_id < (int) nthreads; thread_id++) {
     futures.emplace_back(
@@ -36,9 +36,9 @@ inline void parallel_for(
           try {
             while (true) {
               auto idx = next_idx.fetch_add(1);
-              if (idx >= num) break;
+              if (idx >= static_cast<long long>(num)) break;
               if (has_error) break;
-              func(idx);
+              func(static_cast<T>(idx));
             }
           } catch (...) {
             has_error = true;
@@ -58,7 +58,7 @@ inline void parallel_for(
   auto futures = std::vector<std::future<void>>{};
   const unsigned int nthreads = (target_concurrency == 0) ?
                                 std::max(1u, std::thread::hardware_concurrency()) : target_concurrency;
-  std::atomic<T> next_idx(0);
+  std::atomic<long long> next_idx(0);  // wider than T: every worker increments it once past the end
   std::atomic<bool> has_error(false);
   for (auto thread_id = 0; thread_id < (int) nthreads; thread_id++) {
     futures.emplace_back(std::async(
@@ -66,9 +66,9 @@ inline void parallel_for(
           try {
             while (true) {
               auto j = next_idx.fetch_add(1);
-              if (j >= num2) break;
+              if (j >= static_cast<long long>(num2)) break;
               if (has_error) break;
-              for (auto i = (T) 0; i < num1; i++) func(i, j);
+              for (auto i = (T) 0; i < num1; i++) func(i, static_cast<T>(j));
             }
           } catch (...) {
             has_error = true;
-- 
2.43.0


From 76135c8f51cf7db7271474dc01d5ba701dcad100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:26 +0000
Subject: [PATCH 004/196] fix: JArrayEdgeUnidir_PointSurPoint added to the
 counts a reused output array still held

---
 include/delfem2/jagarray.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/delfem2/jagarray.cpp b/include/delfem2/jagarray.cpp
index bb66659..54ba3d6 100644
--- a/include/delfem2/jagarray.cpp
+++ b/include/delfem2/jagarray.cpp
@@ -21,8 +21,7 @@ DFM2_INLINE void delfem2::JArrayEdgeUnidir_PointSurPoint(
     const std::vector<unsigned int> &psup) {
   assert(psup_ind.size() >= 2);
   const std::size_t np = psup_ind.size() - 1;
-  edge_ind.resize(np + 1);
-  edge_ind[0] = 0;
+  edge_ind.assign(np + 1, 0);
   edge.clear();
   //
   for (unsigned int ip = 0; ip < np; ++ip) {
-- 
2.43.0


From cdd01d9b62b3bdf60657e3a617cdb743fb20b1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:26 +0000
Subject: [PATCH 005/196] fix: edge, line and quad extraction appended to
 output arrays that are not empty

---
 include/delfem2/msh_topology_uniform.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/delfem2/msh_topology_uniform.cpp b/include/delfem2/msh_topology_uniform.cpp
index 21aab1f..bd4981b 100644
--- a/include/delfem2/msh_topology_uniform.cpp
+++ b/include/delfem2/msh_topology_uniform.cpp
@@ -76,6 +76,7 @@ DFM2_INLINE void delfem2::ElemQuad_DihedralTri(
       tri_vtx_idx, num_tri, MESHELEM_TRI,
       num_vtx);
   assert(aElSuEl.size() == num_tri * 3);
+  quad_vtx_idx.clear();
   for (unsigned int itri = 0; itri < num_tri; ++itri) {
     for (int iedtri = 0; iedtri < 3; ++iedtri) {
       const unsigned int jtri = aElSuEl[itri * 3 + iedtri];
@@ -373,6 +374,7 @@ DFM2_INLINE void delfem2::JArrayEdge_MeshElem(
   const std::size_t nPoint0 = elsup_ind.size() - 1;
   edge_ind.resize(nPoint0 + 1);
   edge_ind[0] = 0;
+  edge.clear();
   for (unsigned int ip = 0; ip < nPoint0; ++ip) {
     std::set<unsigned int> setIP;
     for (unsigned int ielsup = elsup_ind[ip]; ielsup < elsup_ind[ip + 1]; ++ielsup) {
@@ -402,6 +404,7 @@ DFM2_INLINE void delfem2::MeshLine_JArrayEdge(
     //
     const std::vector<unsigned int> &psup_ind,
     const std::vector<unsigned int> &psup) {
+  line_vtx.clear();
   line_vtx.reserve(psup.size() * 2);
   const std::size_t np = psup_ind.size() - 1;
   for (unsigned int ip = 0; ip < np; ++ip) {
-- 
2.43.0


From 3fdc744d1a1c471f569415fbff9f4393b7787b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:26 +0000
Subject: [PATCH 006/196] fix: UnifySeparateIndexing_PosTex failed when a
 triangle holds the position and the texture index at different corners, or
 outputs are reused

---
 include/delfem2/msh_topology_uniform.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/msh_topology_uniform.cpp b/include/delfem2/msh_topology_uniform.cpp
index bd4981b..594ae91 100644
--- a/include/delfem2/msh_topology_uniform.cpp
+++ b/include/delfem2/msh_topology_uniform.cpp
@@ -522,7 +522,9 @@ void delfem2::UnifySeparateIndexing_PosTex(
   std::vector<unsigned int> elsup1_ind, elsup1;
   JArray_ElSuP_MeshTri(
       elsup1_ind, elsup1, elem_vtx_tex, vtx_tex.size()/2);
-  tri_uni.resize(elem_vtx_xyz.size(),UINT_MAX);
+  uni_xyz.clear();
+  uni_tex.clear();
+  tri_uni.assign(elem_vtx_xyz.size(),UINT_MAX);
   for(unsigned int itri=0;itri<elem_vtx_xyz.size()/3;++itri){
     for(unsigned int ino=0;ino<3;++ino){
       if( tri_uni[itri*3+ino] != UINT_MAX ) { continue; }
@@ -542,7 +544,7 @@ void delfem2::UnifySeparateIndexing_PosTex(
       for(unsigned jtri : tris){
         const unsigned int jno = FindIndexTri(elem_vtx_xyz.data()+jtri*3, ixyz);
         assert( elem_vtx_xyz[jtri*3+jno] == ixyz );
-        assert( elem_vtx_tex[jtri*3+jno] == itex );
+        if( elem_vtx_tex[jtri*3+jno] != itex ){ continue; } // both are in this triangle, but at different corners
         assert( tri_uni[jtri*3+jno] == UINT_MAX );
         tri_uni[jtri*3+jno] = iuni;
       }
-- 
2.43.0


From db80ee8a20a665c4ce76e1c214ace90bd1b15976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:26 +0000
Subject: [PATCH 007/196] fix: element edge tables (last edge of the
 tetrahedron, voxel edges, pyramid, wedge and voxel read out of bounds)

---
 include/delfem2/mshelm.h | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/delfem2/mshelm.h b/include/delfem2/mshelm.h
index d43e3cb..c135561 100644
--- a/include/delfem2/mshelm.h
+++ b/include/delfem2/mshelm.h
@@ -149,7 +149,7 @@ const int noelElemEdge_Tet[6][2] = {
   { 0, 3},
   { 1, 2},
   { 1, 3},
-  { 2, 2},
+  { 2, 3},
 };
 const int noelElemEdge_Quad[4][2] = {
   { 0, 1},
@@ -162,11 +162,19 @@ const int noelElemEdge_Hex[12][2] = {
   {4,5},{5,6},{6,7},{7,4},
   {0,4},{1,5},{2,6},{3,7}
 };
-// TODO: this looks wrong...
-const int noelElemEdge_Vox[12][2] = {
-  {0,1},{3,2},{4,5},{7,6},
-  {0,3},{1,2},{4,7},{5,6},
-  {0,4},{1,5},{3,7},{2,6}
+const int noelElemEdge_Pyram[8][2] = {
+  {0,1},{1,2},{2,3},{3,0},
+  {0,4},{1,4},{2,4},{3,4}
+};
+const int noelElemEdge_Wed[9][2] = {
+  {0,1},{1,2},{2,0},
+  {3,4},{4,5},{5,3},
+  {0,3},{1,4},{2,5}
+};
+const int noelElemEdge_Vox[12][2] = { // this numbering is corresponds to VTK_VOX
+  {0,1},{2,3},{4,5},{6,7},
+  {0,2},{1,3},{4,6},{5,7},
+  {0,4},{1,5},{2,6},{3,7}
 };
 
 // -----------------------------
@@ -195,11 +203,14 @@ inline const int (*noelElemFace(MESHELEM_TYPE type))[4]
 }
 inline const int (*noelElemEdge(MESHELEM_TYPE type))[2]
 {
-  const int (*noelElemEdge0[4])[2] = {
+  const int (*noelElemEdge0[7])[2] = {
     noelElemEdge_Tri,
     noelElemEdge_Tet,
     noelElemEdge_Quad,
-    noelElemEdge_Hex
+    noelElemEdge_Hex,
+    noelElemEdge_Pyram,
+    noelElemEdge_Wed,
+    noelElemEdge_Vox
   };
   return noelElemEdge0[type];
 }
-- 
2.43.0


From 1cf5db4a89f61a0dab9ddcb767b3f97ee386a0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:26 +0000
Subject: [PATCH 008/196] fix: AddElement refused the first element of a
 CElemMixed

---
 include/delfem2/msh_topology_mix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_topology_mix.cpp b/include/delfem2/msh_topology_mix.cpp
index 24f39a4..75601c2 100644
--- a/include/delfem2/msh_topology_mix.cpp
+++ b/include/delfem2/msh_topology_mix.cpp
@@ -19,7 +19,7 @@ DFM2_INLINE void delfem2::AddElement
   //
   std::copy(aElemIn.begin(), aElemIn.end(), std::back_inserter(aElem));
   //
-  assert( aElemInd.size() >= 2 );
+  assert( !aElemInd.empty() );
   const std::size_t nelem0 = aElemInd.size()-1;
   const int nei0 = aElemInd[nelem0];
   aElemInd.reserve(aElemInd.size()+nElemIn);
-- 
2.43.0


From d6713ab36991a3f7476bd1707be0a60a9fe0b4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:26 +0000
Subject: [PATCH 009/196] fix: Boundary_MeshMix gave the boundary edges of 2D
 elements no element type

---
 include/delfem2/msh_topology_mix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/msh_topology_mix.cpp b/include/delfem2/msh_topology_mix.cpp
index 75601c2..09b7830 100644
--- a/include/delfem2/msh_topology_mix.cpp
+++ b/include/delfem2/msh_topology_mix.cpp
@@ -177,6 +177,7 @@ DFM2_INLINE void delfem2::Boundary_MeshMix
       const int nnofa_i = nNodeElemFace(type_i,iface);
       if(      nnofa_i == 3 ){ aElemType_Bound.push_back(MESHELEM_TRI ); }
       else if( nnofa_i == 4 ){ aElemType_Bound.push_back(MESHELEM_QUAD); }
+      else if( nnofa_i == 2 ){ aElemType_Bound.push_back(MESHELEM_LINE); }
       aElemInd_Bound.push_back(nnofa_i);
       for(int inofa=0;inofa<nnofa_i;++inofa){
         const int ino0 = noelElemFace(type_i)[iface][inofa];
-- 
2.43.0


From 0a397ad19635656faf02c831b692f29b2253450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:08 +0000
Subject: [PATCH 010/196] fix: CMatrixSparse assignment and AddDia_LumpedMass
 did not compile (stale member names)

---
 include/delfem2/ls_block_sparse.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/delfem2/ls_block_sparse.h b/include/delfem2/ls_block_sparse.h
index 6ac30b2..db99a1a 100755
--- a/include/delfem2/ls_block_sparse.h
+++ b/include/delfem2/ls_block_sparse.h
@@ -59,14 +59,14 @@ class CMatrixSparse {
    * @param m
    */
   void operator=(const CMatrixSparse &m) {
-    this->nrowblk = m.nrowblk;
-    this->nrowdim = m.nrowdim;
-    this->ncolblk = m.ncolblk;
-    this->ncoldim = m.ncoldim;
-    col_ind_ = m.colInd;
-    row_ptr_ = m.rowPtr;
-    val_crs_ = m.valCrs;
-    val_dia_ = m.valDia; // copy value
+    this->nrowblk_ = m.nrowblk_;
+    this->nrowdim_ = m.nrowdim_;
+    this->ncolblk_ = m.ncolblk_;
+    this->ncoldim_ = m.ncoldim_;
+    col_ind_ = m.col_ind_;
+    row_ptr_ = m.row_ptr_;
+    val_crs_ = m.val_crs_;
+    val_dia_ = m.val_dia_; // copy value
   }
 
   void SetPattern(
@@ -172,10 +172,10 @@ class CMatrixSparse {
   void AddDia_LumpedMass(
       const T *lm,
       double scale) {
-    assert(this->nblk_row == this->nblk_col);
-    assert(this->len_row == this->nrowdim);
+    assert(this->ncolblk_ == this->nrowblk_);
+    assert(this->ncoldim_ == this->nrowdim_);
     const int blksize = nrowdim_ * ncoldim_;
-    const int nlen = this->nrowdim;
+    const int nlen = this->nrowdim_;
     if (val_dia_.empty()) { return; }
     for (unsigned int iblk = 0; iblk < nrowblk_; ++iblk) {
       for (int ilen = 0; ilen < nlen; ++ilen) {
-- 
2.43.0


From f2f328baa0bff2f057bbd25b915540a8551d7a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:08 +0000
Subject: [PATCH 011/196] fix: Merge added a wrong block to the diagonal when
 row and column lists differ, and left its row marker uninitialised

---
 include/delfem2/ls_block_sparse.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/ls_block_sparse.h b/include/delfem2/ls_block_sparse.h
index db99a1a..86878e6 100755
--- a/include/delfem2/ls_block_sparse.h
+++ b/include/delfem2/ls_block_sparse.h
@@ -215,7 +215,7 @@ bool Mearge(
   assert(!A.val_crs_.empty());
   assert(!A.val_dia_.empty());
   assert(blksize == A.nrowdim_ * A.ncoldim_);
-  merge_buffer.resize(A.ncolblk_);
+  merge_buffer.resize(A.ncolblk_, UINT_MAX);
   const unsigned int *colind = A.col_ind_.data();
   const unsigned int *rowptr = A.row_ptr_.data();
   T *vcrs = A.val_crs_.data();
@@ -232,7 +232,7 @@ bool Mearge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        const T *pval_in = &emat[(irow * ncol + irow) * blksize];
+        const T *pval_in = &emat[(irow * ncol + jcol) * blksize];
         T *pval_out = &vdia[iblk1 * blksize];
         for (unsigned int i = 0; i < blksize; i++) { pval_out[i] += pval_in[i]; }
       } else {  // Marge Non-Diagonal
@@ -284,7 +284,7 @@ bool Merge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        const T *pval_in = &emat[irow][irow][0][0];
+        const T *pval_in = &emat[irow][jcol][0][0];
         T *pval_out = &vdia[iblk1 * blksize];
         for (unsigned int i = 0; i < blksize; i++) { pval_out[i] += pval_in[i]; }
       } else {  // Marge Non-Diagonal
@@ -318,7 +318,7 @@ bool Merge(
     std::vector<unsigned int> &merge_buffer) {
   assert(!A.val_crs_.empty());
   assert(!A.val_dia_.empty());
-  merge_buffer.resize(A.ncolblk_);
+  merge_buffer.resize(A.ncolblk_, UINT_MAX);
   const unsigned int *colind = A.col_ind_.data();
   const unsigned int *rowptr = A.row_ptr_.data();
   T *vcrs = A.val_crs_.data();
@@ -335,7 +335,7 @@ bool Merge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        vdia[iblk1] += emat[irow][irow];
+        vdia[iblk1] += emat[irow][jcol];
       } else {  // Marge Non-Diagonal
         if (merge_buffer[jblk1] == UINT_MAX) {
           assert(0);
-- 
2.43.0


From 60d7ee61a0cb1943945503765b436aaf04f61f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:53 +0000
Subject: [PATCH 012/196] fix: master-slave pattern lacked the blocks a slave
 not adjacent to its master (or with several masters) needs

---
 include/delfem2/ls_masterslave.cpp | 109 ++++++++---------------------
 1 file changed, 28 insertions(+), 81 deletions(-)

diff --git a/include/delfem2/ls_masterslave.cpp b/include/delfem2/ls_masterslave.cpp
index 2f69c15..1440e7b 100755
--- a/include/delfem2/ls_masterslave.cpp
+++ b/include/delfem2/ls_masterslave.cpp
@@ -8,6 +8,7 @@
 #include "delfem2/ls_masterslave.h"
 
 #include <cassert>
+#include <set>
 #include <vector>
 #include <climits>
 
@@ -35,7 +36,8 @@ DFM2_INLINE void delfem2::JArray_AddMasterSlavePattern(
 {
   assert(npsup_ind0>0);
   const size_t nno = npsup_ind0-1;
-  std::vector< std::vector<int> > mapM2S(nno);
+  std::vector< std::set<unsigned int> > aSlave(nno);
+  std::vector< std::set<unsigned int> > aMaster(nno);
   for(unsigned int ino1=0;ino1<nno;++ino1){
     for(unsigned int idim1=0;idim1<ndim;++idim1){
       unsigned int idof0 = aMSFlag[ino1*ndim+idim1];
@@ -43,97 +45,42 @@ DFM2_INLINE void delfem2::JArray_AddMasterSlavePattern(
       unsigned int ino0 = idof0/ndim;
       assert( ino0 < nno && idof0 < ndim + ino0*ndim );
       assert( idim1 + ino0*ndim == idof0  );
-      mapM2S[ino0].push_back(ino1);
+      aSlave[ino0].insert(ino1);
+      aMaster[ino1].insert(ino0);
     }
   }
-  //
-  index.assign(nno+1,0);
-  array.clear();
-  std::vector<unsigned int> aflg(nno,UINT_MAX);
-  //
+  // a row needs its own block, everything in the rows of its slaves, and the masters of everything it holds
+  std::vector< std::set<unsigned int> > aRow(nno);
   for(unsigned int ino0=0;ino0<nno;++ino0){
-    aflg[ino0] = ino0;
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      if( aflg[jno] == ino0 ){ continue; }
-      aflg[jno] = ino0;
-      index[ino0+1]++;
-    }
-    for(int iino1=0;iino1<(int)mapM2S[ino0].size();++iino1){
-      const int ino1 = mapM2S[ino0][iino1];
-      if( aflg[ino1] != ino0 ){
-        aflg[ino1] = ino0;
-        index[ino0+1]++;
-      }
-      for(unsigned int jcrs=psup_ind0[ino1];jcrs<psup_ind0[ino1+1];++jcrs){
-        const unsigned int jno1 = psup0[jcrs];
-        if( aflg[jno1] == ino0 ){ continue; }
-        aflg[jno1] = ino0;
-        index[ino0+1]++;
+    aRow[ino0].insert(ino0);
+    aRow[ino0].insert(psup0+psup_ind0[ino0], psup0+psup_ind0[ino0+1]);
+  }
+  for(bool is_changed=true;is_changed;){
+    is_changed = false;
+    for(unsigned int ino0=0;ino0<nno;++ino0){
+      std::set<unsigned int> row = aRow[ino0];
+      for(unsigned int ino1 : aSlave[ino0]){
+        row.insert(aRow[ino1].begin(), aRow[ino1].end());
       }
-    }
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      for(unsigned int jdim=0;jdim<ndim;++jdim){
-        unsigned int kdof = aMSFlag[jno*ndim+jdim];
-        if( kdof == UINT_MAX ) continue;
-        unsigned int kno = kdof/ndim;
-        if( aflg[kno] == ino0 ){ continue; }
-        aflg[kno] = ino0;
-        index[ino0+1]++;
+      const std::set<unsigned int> row0 = row;
+      for(unsigned int jno : row0){
+        row.insert(aMaster[jno].begin(), aMaster[jno].end());
       }
+      if( row.size() == aRow[ino0].size() ){ continue; }
+      aRow[ino0] = row;
+      is_changed = true;
     }
   }
   //
-  for(unsigned int ino=0;ino<nno;ino++){ index[ino+1] += index[ino]; }
-  const unsigned int narray = index[nno];
-  array.resize(narray);
-  for(unsigned int ino=0;ino<nno;ino++){ aflg[ino] = -1; }
-  //
+  index.assign(nno+1,0);
+  array.clear();
   for(unsigned int ino0=0;ino0<nno;++ino0){
-    aflg[ino0] = ino0;
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      if( aflg[jno] == ino0 ){ continue; }
-      aflg[jno] = ino0;
-      const unsigned int ind = index[ino0];
-      array[ind] = jno;
-      index[ino0]++;
-    }
-    for(std::size_t jjno=0;jjno<mapM2S[ino0].size();++jjno){
-      const int jno = mapM2S[ino0][jjno];
-      if( aflg[jno] != ino0 ){
-        aflg[jno] = ino0;
-        const unsigned int ind = index[ino0];
-        array[ind] = jno;
-        index[ino0]++;
-      }
-      for(unsigned int jcrs=psup_ind0[jno];jcrs<psup_ind0[jno+1];++jcrs){
-        const unsigned int kno = psup0[jcrs];
-        if( aflg[kno] == ino0 ){ continue; }
-        aflg[kno] = ino0;
-        const unsigned int ind = index[ino0];
-        array[ind] = kno;
-        index[ino0]++;
-      }
-    }
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      for(unsigned int jdim=0;jdim<ndim;++jdim){
-        unsigned int kdof = aMSFlag[jno*ndim+jdim];
-        if( kdof == UINT_MAX ) continue;
-        unsigned int kno = kdof/ndim;
-        if( aflg[kno] == ino0 ){ continue; }
-        aflg[kno] = ino0;
-        const unsigned int ind = index[ino0];
-        array[ind] = kno;
-        index[ino0]++;
-      }
+    for(unsigned int jno : aRow[ino0]){
+      if( jno == ino0 ){ continue; }
+      array.push_back(jno);
     }
+    index[ino0+1] = static_cast<unsigned int>(array.size());
   }
-  // ---------
-  for(int ino=static_cast<int>(nno);ino>0;--ino){ index[ino] = index[ino-1]; }
-  index[0] = 0;
 }
 
 
-- 
2.43.0


From 2582593ade48e7c69b789a7da450703ea998f43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:09 +0000
Subject: [PATCH 013/196] fix: LP with a >= constraint of non-positive right
 hand side and no artificial variable kept a negative basis entry

---
 include/delfem2/lp.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index e7e30b7..b335c0e 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -338,8 +338,6 @@ int delfem2::CLinPro::Precomp(int& nitr)
   }
 //  std::cout << "precomp" << std::endl;
 //  ::Print(A, ncol, nrow, map_col2row);
-  if( nart == 0 ){ nitr=0; return 0; }
-  ////
   A[(ncol-1)*nrow+1] = 1.0;
   for(unsigned int ieq=0;ieq<aEq.size();++ieq){
     if( mapEq2Art[ieq] == -1 ) continue;
@@ -357,6 +355,7 @@ int delfem2::CLinPro::Precomp(int& nitr)
       }
     }
   }
+  if( nart == 0 ){ nitr=0; return 0; }
 //  std::cout << "  precomp art" << std::endl;
 //  ::Print(A, ncol, nrow, map_col2row);
   assert(LinPro_CheckTable(A, map_col2row, ncol, nrow));
-- 
2.43.0


From 64b0173627c7d932c7bc58561fe4a4ec022fc669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:24 +0000
Subject: [PATCH 014/196] fix: LP reported feasible programs with redundant or
 degenerate constraints as infeasible

---
 include/delfem2/lp.cpp | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index b335c0e..ffca673 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -291,7 +291,7 @@ int delfem2::CLinPro::Precomp(int& nitr)
     if( aEq[ieq].itype == GE && aEq[ieq].rhs > 0  ){ mapEq2Art[ieq] = nart; nart++; }
     if( aEq[ieq].itype == EQ ){ mapEq2Art[ieq] = nart; nart++; }
   }
-  const unsigned int ncol = (neq+1); // neq,trg
+  unsigned int ncol = (neq+1); // neq,trg
   const unsigned int nrow = (1+1+nvar+nslk+nart); // rhs,trg,var,slk,art
 //  std::cout << neq << " " << nvar << " " << nslk << " " << nart << "  " << ncol << " " << nrow << std::endl;
   A.resize(ncol*nrow,0.0);
@@ -367,14 +367,37 @@ int delfem2::CLinPro::Precomp(int& nitr)
 //    std::cout << "no bound in solution" << std::endl;
     return 2;
   }
-  for(unsigned int icol=0;icol<ncol;++icol){
-    unsigned int jrow_dia = map_col2row[icol];
-    if( jrow_dia < 1 || jrow_dia >= 2+nvar+nslk ){
-//      std::cout << "precomputation is not solved: " << jrow_dia << " " << 2+nvar+nslk << std::endl;
-      return 3;
+  for(unsigned int icol=0;icol<neq;){
+    const unsigned int jrow_dia = map_col2row[icol];
+    if( jrow_dia < 2+nvar+nslk ){ ++icol; continue; }
+    if( fabs(A[icol*nrow]) > 1.0e-8 ){ return 3; } // artificial variable is still positive
+    // artificial variable is zero: exchange it with a variable, or remove the redundant equation
+    unsigned int jrow_max = 2;
+    for(unsigned int jrow=2;jrow<2+nvar+nslk;++jrow){
+      if( fabs(A[icol*nrow+jrow]) > fabs(A[icol*nrow+jrow_max]) ){ jrow_max = jrow; }
+    }
+    const double vpiv = A[icol*nrow+jrow_max];
+    if( fabs(vpiv) < 1.0e-8 ){
+      A.erase(A.begin()+icol*nrow, A.begin()+(icol+1)*nrow);
+      map_col2row.erase(map_col2row.begin()+icol);
+      neq -= 1;
+      ncol -= 1;
+      continue;
+    }
+    for(unsigned int jrow=0;jrow<nrow;++jrow){ A[icol*nrow+jrow] /= vpiv; }
+    for(unsigned int jcol=0;jcol<ncol;++jcol){
+      if( jcol == icol ) continue;
+      const double vpiv0 = A[jcol*nrow+jrow_max];
+      for(unsigned int jrow=0;jrow<nrow;++jrow){
+        A[jcol*nrow+jrow] -= vpiv0*A[icol*nrow+jrow];
+      }
     }
+    map_col2row[icol] = jrow_max;
+    ++icol;
   }
   assert( fabs(A[(ncol-1)*nrow]) < 1.0e-8 );
+  for(unsigned int jrow=0;jrow<nrow;++jrow){ A[(ncol-1)*nrow+jrow] = 0.0; } // forget the first target
+  A[(ncol-1)*nrow+1] = 1.0;
 //  std::cout << "  solved" << std::endl;
 //  ::(A, ncol, nrow, map_col2row);
 //    std::cout << "couldn't found solution" << std::endl;
-- 
2.43.0


From c8268072abf299127c3c6237a75257dd6f52dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:16 +0000
Subject: [PATCH 015/196] fix: LP took rounding noise for a descent direction
 or a pivot and reported bounded programs as unbounded

---
 include/delfem2/lp.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index ffca673..fc523ca 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -126,7 +126,7 @@ int LinPro_SolveTable(
       for(unsigned int jrow=0;jrow<nrow;++jrow){
         if( flg_row[jrow] != 0 ){ continue; }
         double d0 = B[(ncol-1)*nrow+jrow];
-        if( d0 >= 0 ){ continue; }
+        if( d0 >= -1.0e-10 ){ continue; }
         is_optim = false;
       }
       if( is_optim ){ // no way to furthre increase the value
@@ -140,14 +140,14 @@ int LinPro_SolveTable(
       for(unsigned int jrow=0;jrow<nrow;++jrow){
         if( flg_row[jrow] != 0 ){ continue; }
         double d0 = B[(ncol-1)*nrow+jrow];
-        if( d0 >= 0 ){ continue; }
+        if( d0 >= -1.0e-10 ){ continue; }
         double min_bound = -1;
         unsigned int icol_min_cand = UINT_MAX;
         for(unsigned int icol=0;icol<ncol-1;++icol){
           const double dia0 = B[icol*nrow+jrow];
           const double rhs0 = B[icol*nrow];
 //          std::cout << "hoge" << dia0 << std::endl;
-          if( dia0 <= 0 ){ continue; } // negative dia makes the rhs netgative
+          if( dia0 <= 1.0e-10 ){ continue; } // negative dia makes the rhs netgative
           double bound0 = rhs0/dia0;
           if( bound0 > 1.0e+10 ) continue;
           if( icol_min_cand == UINT_MAX || bound0 < min_bound ){
-- 
2.43.0


From 7c6aabbf61976e87a33ff7ed1030aef4a3e5519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:37 +0000
Subject: [PATCH 016/196] fix: complex Krylov solvers did not compile (stale
 member names, missing vectors)

---
 include/delfem2/vecxitrsol.h | 56 ++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index 84d79fa..7528f0f 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -157,18 +157,18 @@ Solve_CG_Complex(
     const MAT& mat)
 {
   using COMPLEX = std::complex<REAL>;
-  assert(!mat.valDia.empty());
-  assert(mat.nblk_col == mat.nblk_row);
-  assert(mat.nrowdim == mat.len_row);
-  const unsigned int ndof = mat.nblk_col * mat.nrowdim;
+  assert(!mat.val_dia_.empty());
+  assert(mat.nrowblk_ == mat.ncolblk_);
+  assert(mat.nrowdim_ == mat.ncoldim_);
+  const unsigned int ndof = mat.nrowblk_ * mat.nrowdim_;
   assert(r_vec.size() == ndof);
   std::vector<double> aConv;
   u_vec.assign(ndof, 0.0);   // {x} = 0
   double sqnorm_res = Dot(r_vec, r_vec).real();
   if (sqnorm_res < 1.0e-30) { return aConv; }
   const double inv_sqnorm_res_ini = 1.0 / sqnorm_res;
-  COMPLEX Ap_vec(ndof);
-  COMPLEX p_vec = r_vec;// {p} = {r} (Set Initial Serch Direction)
+  std::vector<COMPLEX> Ap_vec(ndof);
+  std::vector<COMPLEX> p_vec = r_vec;// {p} = {r} (Set Initial Serch Direction)
   for (unsigned int iitr = 0; iitr < max_iteration; iitr++) {
     double alpha;
     {  // alpha = (r,r) / (p,Ap)
@@ -285,10 +285,10 @@ Solve_BiCGSTAB_Complex(
 {
   using COMPLEX = std::complex<REAL>;
   //
-  assert(!mat.valDia.empty());
-  assert(mat.nblk_col == mat.nblk_row);
-  assert(mat.nrowdim == mat.len_row);
-  const unsigned int ndof = mat.nblk_col * mat.nrowdim;
+  assert(!mat.val_dia_.empty());
+  assert(mat.nrowblk_ == mat.ncolblk_);
+  assert(mat.nrowdim_ == mat.ncoldim_);
+  const unsigned int ndof = mat.nrowblk_ * mat.nrowdim_;
   assert(r_vec.size() == ndof);
   
   std::vector<double> aConv;
@@ -447,17 +447,17 @@ std::vector<double> Solve_PBiCGStab_Complex(
 {
   using COMPLEX = std::complex<REAL>;
   
-  assert( !mat.valDia.empty() );
-  assert( mat.nblk_col == mat.nblk_row );
-  assert( mat.nrowdim == mat.len_row );
-  const unsigned int ndof = mat.nblk_col*mat.nrowdim;
+  assert( !mat.val_dia_.empty() );
+  assert( mat.nrowblk_ == mat.ncolblk_ );
+  assert( mat.nrowdim_ == mat.ncoldim_ );
+  const unsigned int ndof = mat.nrowblk_*mat.nrowdim_;
   std::vector<double> aResHistry;
   
   for(unsigned int i=0;i<ndof;++i){ x_vec[i] = COMPLEX(0.0,0.0); }   // {u} = 0
   
   double sq_inv_norm_res_ini;
   {
-    const double sq_norm_res_ini = Dot(r_vec,r_vec,ndof).real();
+    const double sq_norm_res_ini = DotX(r_vec,r_vec,ndof).real();
     if( sq_norm_res_ini < 1.0e-60 ){
       aResHistry.push_back( sqrt( sq_norm_res_ini ) );
       return aResHistry;
@@ -475,12 +475,12 @@ std::vector<double> Solve_PBiCGStab_Complex(
   std::vector<COMPLEX> p_vec(r_vec,r_vec+ndof);  // {p} = {r}
   
   // calc (r,r0*)
-  COMPLEX r_r0 = Dot(r_vec,r0_vec.data(),ndof);
+  COMPLEX r_r0 = DotX(r_vec,r0_vec.data(),ndof);
   
   for(unsigned int itr=0;itr<max_niter;itr++){
     // {Mp_vec} = [M^-1]*{p}
     Mp_vec.assign(p_vec.begin(),p_vec.end());
-    ilu.SolvePrecond(Mp_vec);
+    ilu.SolvePrecond(Mp_vec.data());
     // calc {AMp_vec} = [A]*{Mp_vec}
     mat.MatVec(AMp_vec.data(),
                COMPLEX(1,0), Mp_vec.data(), COMPLEX(0,0));
@@ -491,7 +491,7 @@ std::vector<double> Solve_PBiCGStab_Complex(
     AXPY(-alpha,AMp_vec,s_vec);
     // {Ms_vec} = [M^-1]*{s}
     Ms_vec.assign(s_vec.begin(),s_vec.end());
-    ilu.SolvePrecond(Ms_vec);
+    ilu.SolvePrecond(Ms_vec.data());
     // calc {AMs_vec} = [A]*{Ms_vec}
     mat.MatVec(AMs_vec.data(),
                COMPLEX(1,0),Ms_vec.data(), COMPLEX(0,0));
@@ -499,14 +499,14 @@ std::vector<double> Solve_PBiCGStab_Complex(
     for(unsigned int i=0;i<ndof;++i){ x_vec[i] = x_vec[i]+alpha*Mp_vec[i]+omega*Ms_vec[i]; }
     for(unsigned int i=0;i<ndof;++i){ r_vec[i] = s_vec[i]-omega*AMs_vec[i]; }
     {
-      const double sq_norm_res = Dot(r_vec,r_vec,ndof).real();
+      const double sq_norm_res = DotX(r_vec,r_vec,ndof).real();
       const double conv_ratio = sqrt(sq_norm_res * sq_inv_norm_res_ini);
       aResHistry.push_back( conv_ratio );
       if( conv_ratio < conv_ratio_tol ){ return aResHistry; }
     }
     COMPLEX beta;
     {  // calc beta
-      const COMPLEX tmp1 = Dot(r_vec,r0_vec.data(),ndof);
+      const COMPLEX tmp1 = DotX(r_vec,r0_vec.data(),ndof);
       beta = (tmp1*alpha)/(r_r0*omega);
       r_r0 = tmp1;
     }
@@ -528,14 +528,14 @@ std::vector<double> Solve_PCG_Complex(
 {
   using COMPLEX = std::complex<REAL>;
 
-  const unsigned int ndof = mat.nblk_col * mat.nrowdim;
+  const unsigned int ndof = mat.nrowblk_ * mat.nrowdim_;
   std::vector<double> aResHistry;
   
   for (unsigned int i = 0; i < ndof; i++) { x_vec[i] = COMPLEX(0.0, 0.0); }    // {x} = 0
   
   double inv_sqnorm_res0;
   {
-    const double sqnorm_res0 = Dot(r_vec, r_vec, ndof).real();
+    const double sqnorm_res0 = DotX(r_vec, r_vec, ndof).real();
     aResHistry.push_back(sqnorm_res0);
     if (sqnorm_res0 < 1.0e-30) { return aResHistry; }
     inv_sqnorm_res0 = 1.0 / sqnorm_res0;
@@ -543,11 +543,11 @@ std::vector<double> Solve_PCG_Complex(
   
   // {Pr} = [P]{r}
   std::vector<COMPLEX> Pr_vec(r_vec, r_vec + ndof);
-  ilu.SolvePrecond(Pr_vec);
+  ilu.SolvePrecond(Pr_vec.data());
   // {p} = {Pr}
   std::vector<COMPLEX> p_vec = Pr_vec;
   // rPr = ({r},{Pr})
-  COMPLEX rPr = Dot(r_vec, Pr_vec.data(), ndof);
+  COMPLEX rPr = DotX(r_vec, Pr_vec.data(), ndof);
   for (unsigned int iitr = 0; iitr < max_nitr; iitr++) {
     {
       std::vector<COMPLEX> &Ap_vec = Pr_vec;
@@ -561,7 +561,7 @@ std::vector<double> Solve_PCG_Complex(
       AXPY(+alpha, p_vec.data(), x_vec, ndof);       // {x} = +alpha*{p } + {x}
     }
     {  // Converge Judgement
-      double sqnorm_res = Dot(r_vec, r_vec, ndof).real();
+      double sqnorm_res = DotX(r_vec, r_vec, ndof).real();
       double conv_ratio = sqrt(sqnorm_res * inv_sqnorm_res0);
       aResHistry.push_back(conv_ratio);
       if (conv_ratio < conv_ratio_tol) { return aResHistry; }
@@ -569,9 +569,9 @@ std::vector<double> Solve_PCG_Complex(
     {  // calc beta
        // {Pr} = [P]{r}
       for (unsigned int i = 0; i < ndof; i++) { Pr_vec[i] = r_vec[i]; }
-      ilu.SolvePrecond(Pr_vec);
+      ilu.SolvePrecond(Pr_vec.data());
       // rPr1 = ({r},{Pr})
-      const COMPLEX rPr1 = Dot(r_vec, Pr_vec.data(), ndof);
+      const COMPLEX rPr1 = DotX(r_vec, Pr_vec.data(), ndof);
       // beta = rPr1/rPr
       COMPLEX beta = rPr1 / rPr;
       rPr = rPr1;
@@ -581,7 +581,7 @@ std::vector<double> Solve_PCG_Complex(
   }
   {
     // Converge Judgement
-    double sq_norm_res = Dot(r_vec, r_vec, ndof).real();
+    double sq_norm_res = DotX(r_vec, r_vec, ndof).real();
     aResHistry.push_back(sqrt(sq_norm_res));
   }
   return aResHistry;
-- 
2.43.0


From 2c90df958c1fce9590b81dc3744e92545c18793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:37 +0000
Subject: [PATCH 017/196] fix: Solve_CG_Complex reported and tested the
 residual of the iteration before

---
 include/delfem2/vecxitrsol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index 7528f0f..b36dc2a 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -182,7 +182,7 @@ Solve_CG_Complex(
     AXPY(COMPLEX(+alpha), p_vec, u_vec);    // {x} = +alpha*{ p} + {x} (updatex)
     AXPY(COMPLEX(-alpha), Ap_vec, r_vec);  // {r} = -alpha*{Ap} + {r}
     double sqnorm_res_new = Dot(r_vec, r_vec).real();
-    const double conv_ratio = sqrt(sqnorm_res * inv_sqnorm_res_ini);
+    const double conv_ratio = sqrt(sqnorm_res_new * inv_sqnorm_res_ini);
     aConv.push_back(conv_ratio);
     if (conv_ratio < conv_ratio_tol) { return aConv; }
     { // update p
-- 
2.43.0


From 7cef424b69db03706abfc8aea25d6a1c440c2bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:37 +0000
Subject: [PATCH 018/196] fix: Solve_BiCGStab left the solution vector as it
 was for a zero right hand side

---
 include/delfem2/vecxitrsol.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index b36dc2a..a96fd2b 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -209,6 +209,7 @@ std::vector<REAL> Solve_BiCGStab(
   assert(r_vec.size() == ndof);
   
   std::vector<double> aConv;
+  x_vec.assign(ndof, 0.0);
   double sq_inv_norm_res_ini;
   {
     const double sq_norm_res_ini = Dot(r_vec, r_vec);
@@ -222,8 +223,6 @@ std::vector<REAL> Solve_BiCGStab(
   std::vector<double> Ap_vec(ndof);
   std::vector<double> r2_vec(ndof);
   
-  x_vec.assign(ndof, 0.0);
-  
   r2_vec = r_vec;   // {r2} = {r}
   p_vec = r_vec;    // {p} = {r}
   double r_r2 = Dot(r_vec, r2_vec);   // calc ({r},{r2})
@@ -292,6 +291,7 @@ Solve_BiCGSTAB_Complex(
   assert(r_vec.size() == ndof);
   
   std::vector<double> aConv;
+  x_vec.assign(ndof, 0.0);
   double sq_inv_norm_res_ini;
   {
     const double sq_norm_res_ini = Dot(r_vec, r_vec).real();
@@ -304,8 +304,6 @@ Solve_BiCGSTAB_Complex(
   std::vector<COMPLEX> p_vec(ndof);
   std::vector<COMPLEX> Ap_vec(ndof);
   
-  x_vec.assign(ndof, 0.0);
-  
   const std::vector<COMPLEX> r0_vec = r_vec;   // {r2} = {r}
   p_vec = r_vec;    // {p} = {r}
   COMPLEX r_r0 = Dot(r_vec, r0_vec);   // calc ({r},{r2})
-- 
2.43.0


From 6048efd8ed4b599c786d07dc3480955d2c3474d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:49 +0000
Subject: [PATCH 019/196] fix: BiCGStab returned NaN when its first half step
 already solves the system

---
 include/delfem2/vecxitrsol.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index a96fd2b..0ac16af 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -246,7 +246,7 @@ std::vector<REAL> Solve_BiCGStab(
     { // omega = ({As},{s}) / ({As},{As})
       const double denominator = Dot(As_vec, As_vec);
       const double numerator = Dot(As_vec, s_vec);
-      omega = numerator / denominator;
+      omega = ( denominator > 0 ) ? numerator / denominator : 0.0; // {s} is zero if already solved
     }
     // ix += alpha*{p} + omega*{s} (update solution)
     AXPY(alpha, p_vec, x_vec);
@@ -319,7 +319,8 @@ Solve_BiCGSTAB_Complex(
     mat.MatVec(As_vec.data(),
                1.0, s_vec.data(), 0.0);
     // calc omega
-    const COMPLEX omega = Dot(s_vec, As_vec) / Dot(As_vec, As_vec).real();  // omega=({As},{s})/({As},{As})
+    const REAL sq_norm_As = Dot(As_vec, As_vec).real();
+    const COMPLEX omega = (sq_norm_As > 0) ? Dot(s_vec, As_vec) / sq_norm_As : COMPLEX(0.0);  // omega=({As},{s})/({As},{As})
                                                                                         // ix += alpha*{p} + omega*{s} (update solution)
     AXPY(alpha, p_vec, x_vec);
     AXPY(omega, s_vec, x_vec);
@@ -408,7 +409,7 @@ std::vector<double> Solve_PBiCGStab(
     {  // calc omega
       const double denominator = Dot(AMs_vec,AMs_vec);
       const double numerator = Dot(s_vec,AMs_vec);
-      omega = numerator / denominator;
+      omega = ( denominator > 0 ) ? numerator / denominator : 0.0; // {s} is zero if already solved
     }
     AXPY(alpha,Mp_vec.data(),x_vec,ndof);
     AXPY(omega,Ms_vec.data(),x_vec,ndof);
@@ -493,7 +494,8 @@ std::vector<double> Solve_PBiCGStab_Complex(
     // calc {AMs_vec} = [A]*{Ms_vec}
     mat.MatVec(AMs_vec.data(),
                COMPLEX(1,0),Ms_vec.data(), COMPLEX(0,0));
-    const COMPLEX omega = Dot(s_vec,AMs_vec) / Dot(AMs_vec,AMs_vec).real();
+    const REAL sq_norm_AMs = Dot(AMs_vec,AMs_vec).real();
+    const COMPLEX omega = (sq_norm_AMs > 0) ? Dot(s_vec,AMs_vec) / sq_norm_AMs : COMPLEX(0.0);
     for(unsigned int i=0;i<ndof;++i){ x_vec[i] = x_vec[i]+alpha*Mp_vec[i]+omega*Ms_vec[i]; }
     for(unsigned int i=0;i<ndof;++i){ r_vec[i] = s_vec[i]-omega*AMs_vec[i]; }
     {
-- 
2.43.0


From b2a687d80a3441343ae375f7efd3924329c25576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:49 +0000
Subject: [PATCH 020/196] fix: copying a CPreconditionerILU did not compile
 (stale member names)

---
 include/delfem2/ls_ilu_block_sparse.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/ls_ilu_block_sparse.cpp b/include/delfem2/ls_ilu_block_sparse.cpp
index 21cbb62..583b362 100755
--- a/include/delfem2/ls_ilu_block_sparse.cpp
+++ b/include/delfem2/ls_ilu_block_sparse.cpp
@@ -136,12 +136,13 @@ template<typename T>
 delfem2::CPreconditionerILU<T>::CPreconditionerILU(
     const CPreconditionerILU<T> &p) {
 //  std::cout << "CPreconditionerILU -- construct copy" << std::endl;
-  this->mat = p.mat; // deep copy
-  assert(nblk == this->mat.nblk_col);
-  this->m_diaInd.resize(nblk);
-  for (int iblk = 0; iblk < nblk; ++iblk) {
-    this->m_diaInd[iblk] = p.m_diaInd[iblk];
-  }
+  this->nblk = p.nblk;
+  this->ndim = p.ndim;
+  this->colInd = p.colInd; // deep copy
+  this->rowPtr = p.rowPtr;
+  this->m_diaInd = p.m_diaInd;
+  this->valCrs = p.valCrs;
+  this->valDia = p.valDia;
 }
 
 // -------------------------------------------------------------------
-- 
2.43.0


From 6ee82261a93aa470cc2c5939cf435ead8bd2baf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:49 +0000
Subject: [PATCH 021/196] fix: ILU(k) symbolic factorisation read out of bounds
 for a row without off-diagonal blocks

---
 include/delfem2/ls_ilu_block_sparse.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/delfem2/ls_ilu_block_sparse.cpp b/include/delfem2/ls_ilu_block_sparse.cpp
index 583b362..5f00b9f 100755
--- a/include/delfem2/ls_ilu_block_sparse.cpp
+++ b/include/delfem2/ls_ilu_block_sparse.cpp
@@ -897,6 +897,11 @@ void delfem2::CPreconditionerILU<T>::Initialize_ILUk(
         listNonzero[inz].next = inz + 1;
         inz++;
       }
+      if (inz == 0) { // no off-diagonal block in this row
+        m_diaInd[iblk] = colInd[iblk];
+        colInd[iblk + 1] = colInd[iblk];
+        continue;
+      }
       listNonzero[inz - 1].next = UINT_MAX;
     }
 
-- 
2.43.0


From 06a776e92beb3d7b7fdcb847f5ed76ba27eff7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:49 +0000
Subject: [PATCH 022/196] fix: pentadiagonal Merge used the row size for the
 columns of an element block

---
 include/delfem2/ls_pentadiagonal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/ls_pentadiagonal.h b/include/delfem2/ls_pentadiagonal.h
index 805b2e5..d677117 100644
--- a/include/delfem2/ls_pentadiagonal.h
+++ b/include/delfem2/ls_pentadiagonal.h
@@ -159,7 +159,7 @@ class LinearSystemSolver_BlockPentaDiagonal {
         double *p = dia.GetValuePointer(aIpRow[irow], aIpCol[icol]);
         assert(p != nullptr);
         for (int i = 0; i < ndimrow; ++i) {
-          for (int j = 0; j < ndimrow; ++j) {
+          for (int j = 0; j < ndimcol; ++j) {
             p[i * ndim_ + j] += emat[irow][icol][i][j];
           }
         }
-- 
2.43.0


From 141d3aea731b4058f454f9d7318203abb4cc4729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:33 +0000
Subject: [PATCH 023/196] fix: Project_PointsIncludedInBVH_Outside did not
 compile (CVec3 components are not functions)

---
 include/delfem2/srch_trimesh3_class.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/srch_trimesh3_class.h b/include/delfem2/srch_trimesh3_class.h
index a77cea9..f59c3c0 100644
--- a/include/delfem2/srch_trimesh3_class.h
+++ b/include/delfem2/srch_trimesh3_class.h
@@ -334,9 +334,9 @@ void Project_PointsIncludedInBVH_Outside(
     double sdf = SDFNormal_NearestPoint(n0,
                                         p0, pes, aXYZ0, aTri0, aNorm0);
     if (sdf + cc < 0) continue;
-    aXYZt[ip * 3 + 0] += (sdf + cc) * n0.x();
-    aXYZt[ip * 3 + 1] += (sdf + cc) * n0.y();
-    aXYZt[ip * 3 + 2] += (sdf + cc) * n0.z();
+    aXYZt[ip * 3 + 0] += (sdf + cc) * n0.x;
+    aXYZt[ip * 3 + 1] += (sdf + cc) * n0.y;
+    aXYZt[ip * 3 + 2] += (sdf + cc) * n0.z;
   }
 }
 
-- 
2.43.0


From 8489ad3eaec571a060356cd4b71fee9ed8bdb23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:33 +0000
Subject: [PATCH 024/196] fix: Morton BVH of a single element left its only
 node uninitialised

---
 include/delfem2/srch_bvh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/delfem2/srch_bvh.cpp b/include/delfem2/srch_bvh.cpp
index f83f76d..a394a30 100755
--- a/include/delfem2/srch_bvh.cpp
+++ b/include/delfem2/srch_bvh.cpp
@@ -449,6 +449,11 @@ DFM2_INLINE void delfem2::BVHTopology_Morton(
   bvh_nodes.resize(sorted_morton_codes.size() * 2 - 1);
   bvh_nodes[0].iparent = UINT_MAX;
   const auto nni = static_cast<unsigned int>(sorted_morton_codes.size() - 1); // number of internal node
+  if (nni == 0) { // the root is the only leaf
+    bvh_nodes[0].ichild[0] = sorted_object_indexes[0];
+    bvh_nodes[0].ichild[1] = UINT_MAX;
+    return;
+  }
   for (unsigned int ini = 0; ini < nni; ++ini) {
     const std::pair<unsigned int, unsigned int>
         range = MortonCode_DeterminRange(sorted_morton_codes.data(), sorted_morton_codes.size(), ini);
-- 
2.43.0


From 18af3084ba271c608a3c30d2c6671849e768edd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:33 +0000
Subject: [PATCH 025/196] fix: rebuilding the volumes of a point BVH kept the
 old positions inside

---
 include/delfem2/srch_bvh.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/srch_bvh.h b/include/delfem2/srch_bvh.h
index 2210fe7..306caa4 100755
--- a/include/delfem2/srch_bvh.h
+++ b/include/delfem2/srch_bvh.h
@@ -174,6 +174,7 @@ public:
   void SetVolume(BBOX& bb,
 	  unsigned int ielem) const {
     assert( ielem < nXYZ );
+    bb.Set_Inactive();
     bb.AddPoint(aXYZ+ielem*3, 0.0);
     return;
   }
-- 
2.43.0


From fb592d6c3ef36022423116a54abac53bdd5a37f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:33 +0000
Subject: [PATCH 026/196] fix: top-down BVH crashed for a single element,
 coincident elements and elements along (1,-1,0)

---
 include/delfem2/srch_bvh.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/srch_bvh.cpp b/include/delfem2/srch_bvh.cpp
index a394a30..b4bb4e4 100755
--- a/include/delfem2/srch_bvh.cpp
+++ b/include/delfem2/srch_bvh.cpp
@@ -103,10 +103,14 @@ DFM2_INLINE void DevideElemAryConnex(
           aElemCenter[itri0 * 3 + 2] - org[2]};
       for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { mat[i][j] += vcg[i] * vcg[j]; }}
     }
-    dir[0] = 1;
-    dir[1] = 1;
-    dir[2] = 1;
-    for (int i = 0; i < 10; i++) { // power method to find the max eigen value/vector
+    unsigned int idim = 0; // start from a column of mat, as any fixed vector may be orthogonal to all the elements
+    if (mat[1][1] > mat[idim][idim]) { idim = 1; }
+    if (mat[2][2] > mat[idim][idim]) { idim = 2; }
+    dir[0] = mat[0][idim];
+    dir[1] = mat[1][idim];
+    dir[2] = mat[2][idim];
+    const bool is_coincident = mat[idim][idim] < 1.0e-20;
+    for (int i = 0; i < 10 && !is_coincident; i++) { // power method to find the max eigen value/vector
       double tmp[3] = {
           mat[0][0] * dir[0] + mat[0][1] * dir[1] + mat[0][2] * dir[2],
           mat[1][0] * dir[0] + mat[1][1] * dir[1] + mat[1][2] * dir[2],
@@ -128,6 +132,8 @@ DFM2_INLINE void DevideElemAryConnex(
       break;
     }
   }
+  const bool is_separable = itri_ker != UINT_MAX;
+  if (!is_separable) { itri_ker = list[0]; } // all the elements are at the same position
   const auto inode_ch0 = static_cast<unsigned int>(aNodeBVH.size());
   const auto inode_ch1 = static_cast<unsigned int>(aNodeBVH.size() + 1);
   aNodeBVH.resize(aNodeBVH.size() + 2);
@@ -143,7 +149,7 @@ DFM2_INLINE void DevideElemAryConnex(
     list_ch0.push_back(itri_ker);
     std::stack<unsigned int> stack;
     stack.push(itri_ker);
-    while (!stack.empty()) {
+    while (is_separable && !stack.empty()) {
       unsigned int itri0 = stack.top();
       stack.pop();
       for (int ifael = 0; ifael < nfael; ifael++) {
@@ -278,6 +284,11 @@ DFM2_INLINE int delfem2::BVHTopology_TopDown_MeshElem(
   aElem2Node.resize(nelem, 0);
   aNodeBVH.resize(1);
   aNodeBVH[0].iparent = UINT_MAX;
+  if (nelem == 1) { // the root is the only leaf
+    aNodeBVH[0].ichild[0] = 0;
+    aNodeBVH[0].ichild[1] = UINT_MAX;
+    return 0;
+  }
   bvh::DevideElemAryConnex(
       0, aElem2Node, aNodeBVH,
       list, static_cast<int>(nfael), aElSuEl, aElemCenter);
-- 
2.43.0


From 2647411553710938758ec52281c21bb4a8b0949d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 027/196] fix: Area_Polygon did not compile (Area_Tri takes
 indices)

---
 include/delfem2/geo_polygon2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index 18e0956..e5707ae 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -63,7 +63,7 @@ double delfem2::Area_Polygon(
   const int ne = aP.size();
   double area_loop = 0.0;
   for (int ie = 0; ie < ne; ie++) {
-    area_loop += Area_Tri(vtmp, aP[(ie + 0) % ne], aP[(ie + 1) % ne]);
+    area_loop += Area_Tri2(vtmp, aP[(ie + 0) % ne], aP[(ie + 1) % ne]);
   }
   return area_loop;
 }
-- 
2.43.0


From 7ef23f83796843758e06ca1dcc01831c4a61a869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 028/196] fix: Polygon_Resample_Polygon did not compile (CVec2
 has no Length)

---
 include/delfem2/geo_polygon2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index e5707ae..7fb9f17 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -107,7 +107,7 @@ std::vector<delfem2::CVec2<T>> delfem2::Polygon_Resample_Polygon(
     if (jcur > (int) stroke0.size() - 1) break;
     int ip0 = jcur;
     int ip1 = (jcur + 1) % stroke0.size();
-    double lenj = (stroke0[ip1] - stroke0[ip0]).Length();
+    double lenj = (stroke0[ip1] - stroke0[ip0]).norm();
     double lenjr = lenj * (1.0 - rcur);
     if (lenjr > lcur) { // put point in this segment
       rcur += lcur / lenj;
-- 
2.43.0


From eb8ccf9e29840a8244935a4b1051c5b7a95db6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:07 +0000
Subject: [PATCH 029/196] fix: searching the edge a constraint crosses walked
 to the wrong triangle around the point

---
 include/delfem2/dtri2_v2dtri.cpp | 37 +++++++-------------------------
 1 file changed, 8 insertions(+), 29 deletions(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index b062af1..7fe72c2 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -76,23 +76,13 @@ DFM2_INLINE bool FindEdgePoint_AcrossEdge(
         }
       }
     }
-    {
-      const unsigned int inotri2 = (inotri_cur + 1) % 3;
-      const unsigned int itri_nex = aDTri[itri_cur].s2[inotri2];
-      if (itri_nex == UINT_MAX) { break; }
-      const unsigned int jnob = FindAdjEdgeIndex(aDTri[itri_nex], inotri2, aDTri);
-      const unsigned int inotri3 = (jnob + 1) % 3;
-      assert(itri_nex < aDTri.size());
-      assert(aDTri[itri_nex].v[inotri3] == ipo0);
-      if (itri_nex == itri_ini) {
-        itri0 = 0;
-        inotri0 = 0;
-        inotri1 = 0;
-        ratio = 0.0;
-        return false;
-      }
-      itri_cur = itri_nex;
-      inotri_cur = inotri3;
+    if (!MoveCCW(itri_cur, inotri_cur, UINT_MAX, aDTri)) { break; }
+    if (itri_cur == itri_ini) {
+      itri0 = 0;
+      inotri0 = 0;
+      inotri1 = 0;
+      ratio = 0.0;
+      return false;
     }
   }
 
@@ -120,18 +110,7 @@ DFM2_INLINE bool FindEdgePoint_AcrossEdge(
         }
       }
     }
-    {
-      const unsigned int inotri2 = (inotri_cur + 2) % 3;
-      unsigned int itri_nex = aDTri[itri_cur].s2[inotri2];
-      unsigned int jnob = FindAdjEdgeIndex(aDTri[itri_cur], inotri2, aDTri);
-      const unsigned int inotri3 = (jnob + 1) % 3;
-      assert(aDTri[itri_nex].v[inotri3] == ipo0);
-      if (itri_nex == itri_ini) {
-        assert(0);
-      }
-      itri_cur = itri_nex;
-      inotri_cur = inotri3;
-    }
+    if (!MoveCW(itri_cur, inotri_cur, UINT_MAX, aDTri)) { break; }
   }
 
   itri0 = 0;
-- 
2.43.0


From 9360787e2c249451b07a6778e5200c48ecdef65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:30 +0000
Subject: [PATCH 030/196] fix: intersection check between loops used the y
 coordinate as x

---
 include/delfem2/geo_polygon2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index 7fb9f17..f08ea82 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -481,7 +481,7 @@ bool delfem2::CheckInputBoundaryForTriangulation(
             int jpo1 = loopIP_ind[jloop] + jbar + 1;
             if (jbar == nbar_j - 1) { jpo1 = loopIP_ind[jloop]; }
             const double pj0[2] = {aXY[jpo0].p[0], aXY[jpo0].p[1]};
-            const double pj1[2] = {aXY[jpo1].p[1], aXY[jpo1].p[1]};
+            const double pj1[2] = {aXY[jpo1].p[0], aXY[jpo1].p[1]};
             const double xmax_j = (pj1[0] > pj0[0]) ? pj1[0] : pj0[0];
             const double xmin_j = (pj1[0] < pj0[0]) ? pj1[0] : pj0[0];
             const double ymax_j = (pj1[1] > pj0[1]) ? pj1[1] : pj0[1];
-- 
2.43.0


From e37a1ba8211a463def687bc2b3679b0f2b9ad557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:30 +0000
Subject: [PATCH 031/196] fix: ResamplingLoop mixed up edges when a loop does
 not list the points in order

---
 include/delfem2/geo_polygon2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index f08ea82..8b272ab 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -341,7 +341,7 @@ void delfem2::ResamplingLoop(
       const int ip_loop = loopIP0[iip_loop];
       loopIP1[ivtx0] = ip_loop;
       ivtx0++;
-      for (std::size_t iadd = 0; iadd < aPoInEd[ip_loop].size(); iadd++) {
+      for (std::size_t iadd = 0; iadd < aPoInEd[iip_loop].size(); iadd++) {
         loopIP1[ivtx0] = aPoInEd[iip_loop][iadd];
         ivtx0++;
       }
-- 
2.43.0


From e5c7b16bb3eef7fdf17e836562b5209b9a88c5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:30 +0000
Subject: [PATCH 032/196] fix: SecondMomentOfArea_Polygon left the moments of
 isotropic shapes unset

---
 include/delfem2/geo_polygon2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index 8b272ab..be529c7 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -225,6 +225,8 @@ void delfem2::SecondMomentOfArea_Polygon(
   if (fabs(Ix - Iy) + fabs(Ixy) < 1.0e-20) {
     pa1 = CVec2<T>(1, 0);
     pa2 = CVec2<T>(0, 1);
+    I1 = Ix;
+    I2 = Iy;
     return;
   }
   double phi = 0.5 * atan2(-2 * Ixy, Ix - Iy);
-- 
2.43.0


From 8ba16b718ebad41239601e95a0c81cb439c7c14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 033/196] fix: recovering a boundary edge flipped edges of
 non-convex quadrilaterals, leaving inverted triangles

---
 include/delfem2/dtri2_v2dtri.cpp | 65 +++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 14 deletions(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index 7fe72c2..411bfa2 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -10,6 +10,7 @@
 #include <set>
 #include <algorithm>
 #include <climits>
+#include <queue>
 
 #include "delfem2/geo_polygon2.h"
 
@@ -121,6 +122,53 @@ DFM2_INLINE bool FindEdgePoint_AcrossEdge(
   return false;
 }
 
+/**
+ * flip the edges crossing the segment (ip0,ip1) until none is left.
+ * An edge is flipped only if its two triangles make a convex quadrilateral, otherwise it has to wait for the others.
+ * @param itri0 the triangle around ip0 where the segment starts
+ * @param ied0 the edge of itri0 which the segment crosses
+ */
+DFM2_INLINE bool FlipEdges_AcrossSegment(
+    std::vector<CDynPntSur> &aPo,
+    std::vector<CDynTri> &aTri,
+    const unsigned int ip0,
+    const unsigned int ip1,
+    unsigned int itri0,
+    unsigned int ied0,
+    const std::vector<CVec2d> &aVec2) {
+  std::queue<std::pair<unsigned int, unsigned int>> edges; // edges crossing the segment
+  for (;;) {
+    const unsigned int jtri0 = aTri[itri0].s2[ied0];
+    if (jtri0 == UINT_MAX) { return false; } // the segment crosses a wall
+    edges.emplace(aTri[itri0].v[(ied0 + 1) % 3], aTri[itri0].v[(ied0 + 2) % 3]);
+    const unsigned int jed0 = FindAdjEdgeIndex(aTri[itri0], ied0, aTri);
+    const unsigned int ipd = aTri[jtri0].v[jed0];
+    if (ipd == ip1) { break; }
+    itri0 = jtri0;
+    ied0 = (Area_Tri2(aVec2[ip0], aVec2[ip1], aVec2[ipd]) > 0) ? (jed0 + 1) % 3 : (jed0 + 2) % 3;
+  }
+  while (!edges.empty()) {
+    const std::pair<unsigned int, unsigned int> edge = edges.front();
+    edges.pop();
+    FindEdge_LookAllTriangles(itri0, ied0, edge.first, edge.second, aTri);
+    ied0 = (ied0 + 2) % 3; // index of the opposite vertex
+    const unsigned int ipa = aTri[itri0].v[ied0];
+    const unsigned int jtri0 = aTri[itri0].s2[ied0];
+    const unsigned int ipb = aTri[jtri0].v[FindAdjEdgeIndex(aTri[itri0], ied0, aTri)];
+    if (Area_Tri2(aVec2[ipa], aVec2[edge.first], aVec2[ipb]) < 1.0e-10 ||
+        Area_Tri2(aVec2[ipb], aVec2[edge.second], aVec2[ipa]) < 1.0e-10) {
+      edges.push(edge);
+      continue;
+    }
+    FlipEdge(itri0, ied0, aPo, aTri);
+    if (ipa == ip0 || ipa == ip1 || ipb == ip0 || ipb == ip1) { continue; }
+    const double area_a = Area_Tri2(aVec2[ip0], aVec2[ip1], aVec2[ipa]);
+    const double area_b = Area_Tri2(aVec2[ip0], aVec2[ip1], aVec2[ipb]);
+    if (area_a * area_b < 0) { edges.emplace(ipa, ipb); }
+  }
+  return true;
+}
+
 } // cad2
 } // delfem2
 
@@ -433,21 +481,10 @@ DFM2_INLINE void delfem2::EnforceEdge
       } else if (ratio > 1.0 - 1.0e-10) {
         assert(0);
         abort();
-      } else {
-        const int ied0 = 3 - inotri0 - inotri1;
-        assert(aTri[itri0].s2[ied0] < aTri.size());
-#if !defined(NDEBUG)
-        const unsigned int itri1 = aTri[itri0].s2[ied0];
-        const unsigned int ied1 = FindAdjEdgeIndex(aTri[itri0], ied0, aTri);
-        assert(aTri[itri1].s2[ied1] == itri0);
-#endif
-        bool res = FlipEdge(itri0, ied0, aPo2D, aTri);
-//        std::cout << itri0 << " " << ied0 << " " << ratio << " " << res << std::endl;
-//        continue;
-        if (!res) {
-          break;
-        }
       }
+      if (!dtri2::FlipEdges_AcrossSegment(
+          aPo2D, aTri,
+          ip0, ip1, itri0, 3 - inotri0 - inotri1, aVec2)) { break; }
     }
   }
 }
-- 
2.43.0


From a51254fd6333c4492bc10ed1863c2250baddd410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:56 +0000
Subject: [PATCH 034/196] fix: smoothing in MeshingInside inverted triangles
 around a point with a non-convex neighbourhood

---
 include/delfem2/dtri2_v2dtri.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index 411bfa2..ab73b97 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -37,7 +37,16 @@ DFM2_INLINE bool LaplacianArroundPoint
     if (!MoveCCW(itri0, ino0, UINT_MAX, aTri)) { return false; }
     if (itri0 == aPo[ipoin].e) { break; }
   }
+  const CVec2d vec_old = aVec2[ipoin];
   aVec2[ipoin] = vec_delta / ntri_around;
+  for (;;) { // do not move the point if it inverts a triangle around it
+    if (Area_Tri2(aVec2[aTri[itri0].v[0]], aVec2[aTri[itri0].v[1]], aVec2[aTri[itri0].v[2]]) < 1.0e-10) {
+      aVec2[ipoin] = vec_old;
+      return false;
+    }
+    MoveCCW(itri0, ino0, UINT_MAX, aTri);
+    if (itri0 == aPo[ipoin].e) { break; }
+  }
   return true;
 }
 
-- 
2.43.0


From 18abcd8e12ce2bbe0da27686776ded8bc5a403fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:27 +0000
Subject: [PATCH 035/196] fix: deleting points wrote the triangle of a point to
 its old index, also out of bounds

---
 include/delfem2/dtri2_v2dtri.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index ab73b97..8382d2c 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -602,8 +602,8 @@ DFM2_INLINE void delfem2::DeleteUnrefPoints(
       const unsigned int ipo = aTri_in[itri].v[ifatri];
       assert(map_po_del[ipo] != UINT_MAX);
       aTri_in[itri].v[ifatri] = map_po_del[ipo];
-      aPo2D[ipo].e = itri;
-      aPo2D[ipo].d = ifatri;
+      aPo2D[map_po_del[ipo]].e = itri;
+      aPo2D[map_po_del[ipo]].d = ifatri;
     }
   }
 }
@@ -648,8 +648,8 @@ DFM2_INLINE void delfem2::DeletePointsFlag(
     for (int ifatri = 0; ifatri < 3; ifatri++) {
       const unsigned int ipo = aTri[itri].v[ifatri];
       aTri[itri].v[ifatri] = map01[ipo];
-      aPo1[ipo].e = itri;
-      aPo1[ipo].d = ifatri;
+      aPo1[map01[ipo]].e = itri;
+      aPo1[map01[ipo]].d = ifatri;
     }
   }
 }
-- 
2.43.0


From d28dc5f0eaef16429fab39d2bd0b0e449dc39b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:14 +0000
Subject: [PATCH 036/196] fix: an edge could not be enforced when its start
 point already has walls on both sides

---
 include/delfem2/dtri2_v2dtri.cpp | 34 +++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index 8382d2c..6df38d3 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -131,6 +131,32 @@ DFM2_INLINE bool FindEdgePoint_AcrossEdge(
   return false;
 }
 
+/**
+ * look over all the triangles for the corner at ip0 which the direction to ip1 goes through
+ * @return false if there is no such corner other than the one the point already refers to
+ */
+DFM2_INLINE bool FindCornerInDirection(
+    CDynPntSur &po0,
+    const unsigned int ip0,
+    const unsigned int ip1,
+    const std::vector<CDynTri> &aTri,
+    const std::vector<CVec2d> &aVec2) {
+  for (unsigned int itri = 0; itri < aTri.size(); ++itri) {
+    for (unsigned int ino = 0; ino < 3; ++ino) {
+      if (aTri[itri].v[ino] != ip0) { continue; }
+      if (itri == po0.e && ino == po0.d) { continue; }
+      const CVec2d &p1 = aVec2[aTri[itri].v[(ino + 1) % 3]];
+      const CVec2d &p2 = aVec2[aTri[itri].v[(ino + 2) % 3]];
+      if (Area_Tri2(aVec2[ip0], p1, aVec2[ip1]) < -1.0e-20) { continue; }
+      if (Area_Tri2(aVec2[ip0], aVec2[ip1], p2) < -1.0e-20) { continue; }
+      po0.e = itri;
+      po0.d = ino;
+      return true;
+    }
+  }
+  return false;
+}
+
 /**
  * flip the edges crossing the segment (ip0,ip1) until none is left.
  * An edge is flipped only if its two triangles make a convex quadrilateral, otherwise it has to wait for the others.
@@ -479,7 +505,13 @@ DFM2_INLINE void delfem2::EnforceEdge
       double ratio;
       if (!dtri2::FindEdgePoint_AcrossEdge(itri0, inotri0, inotri1, ratio,
                                            ip0, ip1,
-                                           aPo2D, aTri, aVec2)) { assert(0); }
+                                           aPo2D, aTri, aVec2)) {
+        // walls divide the triangles around the point. look for the one in the direction of the edge
+        const bool res = dtri2::FindCornerInDirection(aPo2D[ip0], ip0, ip1, aTri, aVec2);
+        assert(res);
+        if (!res) { break; }
+        continue;
+      }
       assert(ratio > -1.0e-20 && ratio < 1.0 + 1.0e-20);
       assert(Area_Tri2(aVec2[ip0], aVec2[aTri[itri0].v[inotri0]], aVec2[ip1]) > 1.0e-20);
       assert(Area_Tri2(aVec2[ip0], aVec2[ip1], aVec2[aTri[itri0].v[inotri1]]) > 1.0e-20);
-- 
2.43.0


From f0f8c2cd029416aaf29334d060e8467b856d0f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 037/196] fix: VertexIndexs_Face returned the vertices of the
 loop with the index of the face

---
 include/delfem2/cadtopo.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/cadtopo.h b/include/delfem2/cadtopo.h
index d329f52..c32fb40 100644
--- a/include/delfem2/cadtopo.h
+++ b/include/delfem2/cadtopo.h
@@ -201,7 +201,13 @@ public:
       unsigned int iface) const
   {
     assert(iface < faces.size());
-    return loops[iface].GetArray_IdVertex(this->edges);
+    std::vector<unsigned int> aIdV;
+    for(unsigned int il : faces[iface].aIL) {
+      if( loops[il].iv != UINT_MAX ){ aIdV.push_back(loops[il].iv); continue; }
+      const std::vector<unsigned int> aIdV0 = loops[il].GetArray_IdVertex(this->edges);
+      aIdV.insert( aIdV.end(), aIdV0.begin(), aIdV0.end() );
+    }
+    return aIdV;
   }
 
   std::vector<std::pair<unsigned int,bool> > EdgeIndexes_Face(unsigned int iface) const
-- 
2.43.0


From adb47aa73897811e6a058e88a4dc88b962acfd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 038/196] fix: a loop of a single vertex claimed to include
 every vertex

---
 include/delfem2/cadtopo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/cadtopo.h b/include/delfem2/cadtopo.h
index c32fb40..e88866f 100644
--- a/include/delfem2/cadtopo.h
+++ b/include/delfem2/cadtopo.h
@@ -59,7 +59,7 @@ class CadTopo_Loop {
       const std::vector<CadTopo_Edge> &edges) const {
     if( iv != UINT_MAX ){
       assert( aIE.empty() );
-      return true;
+      return ivtx == iv;
     }
     for (auto [ie0,dir] : aIE) {
       assert( ie0 < edges.size() );
-- 
2.43.0


From 92a376d228e93e6ae8738944e5668e93ad771fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 039/196] fix: InvertLoop dropped the control point of
 quadratic edges

---
 include/delfem2/cad2.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/delfem2/cad2.cpp b/include/delfem2/cad2.cpp
index c23121f..ed02dc4 100644
--- a/include/delfem2/cad2.cpp
+++ b/include/delfem2/cad2.cpp
@@ -270,6 +270,11 @@ DFM2_INLINE std::vector<delfem2::CCad2D_EdgeGeo> delfem2::InvertLoop(
       eo.param[2] = (pA - eo.p1).x;
       eo.param[3] = (pA - eo.p1).y;
     }
+    if (ei.type_edge == CCad2D_EdgeGeo::BEZIER_QUADRATIC) {
+      CVec2d pA = ei.p0 + CVec2d(ei.param[0], ei.param[1]);
+      eo.param[0] = (pA - eo.p0).x;
+      eo.param[1] = (pA - eo.p0).y;
+    }
   }
   return aEdgeOut;
 }
-- 
2.43.0


From ec358a646149e72d024b4d0979e475a4f850a8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 040/196] fix: dragging a handle of a cubic edge placed it in
 the frame of the edge instead of under the cursor

---
 include/delfem2/cad2.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/cad2.cpp b/include/delfem2/cad2.cpp
index ed02dc4..0d12352 100644
--- a/include/delfem2/cad2.cpp
+++ b/include/delfem2/cad2.cpp
@@ -427,14 +427,12 @@ DFM2_INLINE void delfem2::Cad2_Ui::DragPicked(
       CCad2D_EdgeGeo &edge = cad.aEdge[iedge_picked];
       if (edge.type_edge == 1) {
         assert(edge.param.size() == 4);
-        const CVec2d lx = (edge.p1 - edge.p0).normalized();
-        const CVec2d ly = CVec2d(lx.y, -lx.x);
         if (ipicked_elem == 1) {
-          edge.param[0] = (CVec2d(p1x, p1y) - edge.p0).dot(lx);
-          edge.param[1] = (CVec2d(p1x, p1y) - edge.p0).dot(ly);
+          edge.param[0] = p1x - edge.p0.x;
+          edge.param[1] = p1y - edge.p0.y;
         } else if (ipicked_elem == 2) {
-          edge.param[2] = (CVec2d(p1x, p1y) - edge.p1).dot(lx);
-          edge.param[3] = (CVec2d(p1x, p1y) - edge.p1).dot(ly);
+          edge.param[2] = p1x - edge.p1.x;
+          edge.param[3] = p1y - edge.p1.y;
         }
       }
     }
-- 
2.43.0


From 84f6f7c22aa797662541c7c212f21b9845349b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 041/196] fix: numbers of an SVG path separated by a new line
 were merged into one

---
 include/delfem2/cad2_io_svg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/cad2_io_svg.cpp b/include/delfem2/cad2_io_svg.cpp
index 30327b4..b73ed7a 100644
--- a/include/delfem2/cad2_io_svg.cpp
+++ b/include/delfem2/cad2_io_svg.cpp
@@ -301,9 +301,9 @@ DFM2_INLINE void delfem2::ReadSVG_LoopEdgeCCad2D(
         str_path = std::string(sTagContent.begin() + 5, sTagContent.end());
       }
       if (str_path == "") { continue; }
-      // remove new line codes as inkscape svg has new line in side path tag
+      // replace new line codes with spaces as inkscape svg has new line in side path tag
       // don't remove spaces here as inkscape svg uses space for the delimiter
-      str_path = Remove(str_path, "\n\r");
+      str_path = Replace(Replace(str_path, '\n', ' '), '\r', ' ');
 //      std::cout << "str_path: " << str_path << std::endl;
       std::map<std::string, std::string> mapAttr;
       ParseAttributes(mapAttr,
-- 
2.43.0


From 644e71d5ddc1e849a55e85c33d0fe8a2acd35b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 042/196] fix: the smooth curve command of an SVG path used its
 handle and end point as the two handles

---
 include/delfem2/cad2_io_svg.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/cad2_io_svg.cpp b/include/delfem2/cad2_io_svg.cpp
index b73ed7a..3d5efe7 100644
--- a/include/delfem2/cad2_io_svg.cpp
+++ b/include/delfem2/cad2_io_svg.cpp
@@ -160,9 +160,12 @@ DFM2_INLINE void LoopEdgeCad2D_SVGPathD(
       CCad2D_EdgeGeo e;
       e.p0 = pos_cur;
       e.p1 = CVec2d(myStod(aStr1[is + 3]), myStod(aStr1[is + 4]));
+      CVec2d p1 = pos_cur;  // the first handle is the reflection of the last handle of the previous cubic curve
+      if (!aEdge.empty() && aEdge.back().type_edge == CCad2D_EdgeGeo::BEZIER_CUBIC) {
+        p1 = pos_cur - CVec2d(aEdge.back().param[2], aEdge.back().param[3]);
+      }
       CVec2d p2(myStod(aStr1[is + 1]), myStod(aStr1[is + 2]));
-      CVec2d p3 = e.p1;
-      e.SetCubicBezierCurve(p2,p3);
+      e.SetCubicBezierCurve(p1, p2);
       aEdge.push_back(e);
       pos_cur = e.p1;
       is += 5;
-- 
2.43.0


From 582b0dd1e86c069d99ae3d9e1d6dd86f337b1402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 043/196] fix: a-b+c and a/b/c were evaluated as a-(b+c) and
 a/(b/c)

---
 include/delfem2/parse_math_expression.cpp | 1195 +++++++++++----------
 1 file changed, 601 insertions(+), 594 deletions(-)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index 531fc4d..d71010b 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -1,594 +1,601 @@
-/*
- * Copyright (c) 2019 Nobuyuki Umetani
- *
- * This source code is licensed under the MIT license found in the
- * LICENSE file in the root directory of this source tree.
- */
-
-#include "delfem2/parse_math_expression.h"
-
-#include <cassert>
-#include <cerrno>    /* Need for Using "ERANGE" */
-#include <cmath>    /* Need for Using "HUGE_VAL" */
-#include <iostream>
-#include <climits>
-
-namespace delfem2::parse_math_expression {
-
-class COperand : public CCmd {
- public:
-  ~COperand() override = default;
-  explicit COperand(const double val) { m_Value = val; }
-
-  bool DoOperation(std::vector<double> &stack) override {
-    stack.push_back(m_Value);
-    return true;
-  }
-  static double GetValue(const int iopr) {
-    switch (iopr) {
-      case 0:return 3.14159265358979;
-      default:assert(0);
-        return 0.0;
-    }
-    return 0.0;
-  }
-  static int GetMaxOprInd() { return 0; }
-  void SetValue(const double &val) override { m_Value = val; }
-  static int GetOprInd(const std::string &str1) {
-    if (str1 == "PI") { return 0; }
-    else { return -1; }
-    return -1;
-  }
- private:
-  double m_Value;
-};
-
-class CBinaryOperator : public CCmd {
- public:
-  ~CBinaryOperator() override = default;
-  explicit CBinaryOperator(const unsigned int iopr) {
-    assert(iopr < 5);
-    m_iOpr = iopr;
-  }
-
-  bool DoOperation(std::vector<double> &stack) override {
-    const double dright = stack.back();
-    stack.pop_back();
-    double &dleft = stack.back();
-    switch (m_iOpr) {
-      case 0:dleft = dleft + dright;
-        return true;
-      case 1:dleft = dright - dleft;
-        return true;
-      case 2:dleft = dleft * dright;
-        return true;
-      case 3:
-        if (fabs(dleft) < 1.0e-20) {
-          dleft = 0.0;
-          return false;
-        }
-        dleft = dright / dleft;
-        return true;
-      case 4:dleft = pow(dright, dleft);
-        return true;
-      default:std::cout << "Error!-->Illegal iOpr " << m_iOpr << std::endl;
-        assert(0);
-    }
-    return false;
-  }
-  static int MaxOprInd() { return 4; }
-  void SetValue(
-    [[maybe_unused]] const double &val) override {
-    assert(0);
-  };
-  unsigned int m_iOpr;
-};
-
-class CUnaryOperator : public CCmd {
- public:
-  ~CUnaryOperator() override = default;
-  explicit CUnaryOperator(const int iopr) {
-    assert(iopr >= 0 && iopr <= MaxOprInd());
-    m_iOpr = iopr;
-  }
-  bool DoOperation(std::vector<double> &stack) override {
-    const double dright = stack.back();
-    double &dleft = stack.back();
-    switch (m_iOpr) {
-      case 0: dleft = dright;
-        return true;
-      case 1: dleft = -dright;
-        return true;
-      case 2: dleft = fabs(dright);
-        return true;
-      case 8: dleft = floor(dright);
-        return true;
-      case 3: dleft = exp(dright);
-        return true;
-      case 4: dleft = sin(dright);
-        return true;
-      case 5: dleft = cos(dright);
-        return true;
-      case 6:
-        if (dright > 1.0e-30) {
-          dleft = sqrt(dright);
-          return true;
-        } else {
-          dleft = 0.0;
-          return false;
-        }
-      case 7:
-        if (dright > 1.0e-30) {
-          dleft = log(dright);
-          return true;
-        } else {
-          dleft = 0.0;
-          return false;
-        }
-      default:std::cout << "Error!-->Illegal iOpr " << m_iOpr << std::endl;
-        assert(0);
-    }
-    return false;
-  }
-  static int MaxOprInd() { return 8; }
-  static int GetOprInd(const std::string &str1) {
-    if (str1 == "+") return 0;
-    else if (str1 == "-") return 1;
-    else if (str1 == "abs") return 2;
-    else if (str1 == "floor") return 8;
-    else if (str1 == "exp") return 3;
-    else if (str1 == "sin") return 4;
-    else if (str1 == "cos") return 5;
-    else if (str1 == "sqrt") return 6;
-    else if (str1 == "log") return 7;
-    return -1;
-  }
-  void SetValue(
-    [[maybe_unused]] const double &val) override {
-    assert(0);
-  }
- private:
-  int m_iOpr;
-};
-
-// -------------------------------------
-
-DFM2_INLINE void RemoveExpressionSpaceNewline(std::string &exp) {
-  const std::string stemp(exp);
-  unsigned int iexp = 0;
-  for (char itemp: stemp) {
-    if (itemp == ' ' || itemp == 0x0d || itemp == 0x0a) continue;
-    exp[iexp] = itemp;
-    iexp++;
-  }
-  exp.resize(iexp);
-}
-
-DFM2_INLINE void RemoveExpressionBracket(std::string &exp) {
-  if (exp[0] != '(' || exp[exp.size() - 1] != ')') return;
-  {
-    int iBracketDepth = 1;
-    for (size_t ipos = 1; ipos < exp.size() - 1; ipos++) {
-      if (exp[ipos] == '(') { iBracketDepth++; }
-      if (exp[ipos] == ')') { iBracketDepth--; }
-      if (iBracketDepth == 0) return;
-    }
-  }
-  {
-    std::string stemp(exp);
-    for (size_t ipos = 1; ipos < exp.size() - 1; ipos++) {
-      exp[ipos - 1] = stemp[ipos];
-    }
-    exp.resize(exp.size() - 2);
-  }
-  RemoveExpressionBracket(exp);
-}
-
-/**
- * 引数expの中のもっとも優先順位の低いオペレターを検索する。
- * itypeはオペレターの種類
- * itype : 0 --> Numerical variable
- * itype : 1 --> Argebric variable
- * itype : 2 --> Unary Operator
- * itype : 3 --> Binary Operator
- */
-int GetLowestPriorityOperator(
-  unsigned int &ibegin,
-  unsigned int &iend,
-  int &itype,
-  int &iopr,
-  const std::string &exp) {
-  itype = -1;
-  iopr = -1;
-
-  const int ipriority_max = 10;
-
-  unsigned int ipos_min = UINT_MAX;
-  int ipriority_min = ipriority_max;
-  int itype_min = -1;
-  int iopr_min = -1;
-
-  bool is_numeric = true;
-  int iBracketDepth = 0;
-  unsigned int iFirstBracket = UINT_MAX;
-  for (unsigned int ipos_curr = 0; ipos_curr < exp.size(); ipos_curr++) {
-    // 括弧内を読み飛ばす
-    switch (exp[ipos_curr]) {
-      case '(':if (iFirstBracket == UINT_MAX) iFirstBracket = ipos_curr;
-        iBracketDepth++;
-        continue;
-      case ')':iBracketDepth--;
-        continue;
-      default:if (iBracketDepth != 0) continue;
-    }
-    assert(iBracketDepth == 0);
-
-    // ipriority_currを計算する
-    int ipriority_curr;
-    int itype_curr = -1;
-    int iopr_curr = -1;
-    switch (exp[ipos_curr]) {
-      case '+':ibegin = ipos_curr;
-        iend = ipos_curr + 1;
-        if (ipos_curr == 0) { // sign operator
-          ipriority_curr = 5;
-          itype_curr = 2;
-          iopr_curr = 0;
-          break;
-        } else if (exp[ipos_curr - 1] != '*' && exp[ipos_curr - 1] != '/' && exp[ipos_curr - 1] != '^') {
-          iopr = 0;
-          itype = 3;
-          return 0;  // binary operator
-        }
-        continue;
-      case '-':ibegin = ipos_curr;
-        iend = ipos_curr + 1;
-        if (ipos_curr == 0) { // sign operator
-          ipriority_curr = 5;
-          itype_curr = 2;
-          iopr_curr = 1;
-          break;
-        } else if (exp[ipos_curr - 1] != '*' && exp[ipos_curr - 1] != '/' && exp[ipos_curr - 1] != '^') {
-          iopr = 1;
-          itype = 3;
-          return 0;  // binary operator
-        }
-        continue;
-      case '*':ipriority_curr = 3;
-        itype_curr = 3;
-        iopr_curr = 2;
-        break;
-      case '/':ipriority_curr = 4;
-        itype_curr = 3;
-        iopr_curr = 3;
-        break;
-      case '^':ipriority_curr = 6;
-        itype_curr = 3;
-        iopr_curr = 4;
-        break;
-      default:ipriority_curr = ipriority_max;
-        if ((exp[ipos_curr] < '0' || exp[ipos_curr] > '9') && exp[ipos_curr] != '.') {
-          is_numeric = false;
-        }
-        break;
-    }
-    if (ipriority_curr < ipriority_min) {
-      ipos_min = ipos_curr;
-      ipriority_min = ipriority_curr;
-      itype_min = itype_curr;
-      iopr_min = iopr_curr;
-    }
-  }
-
-  if (iBracketDepth != 0) {
-    std::cerr << "Error!-->Not corresponding bracket" << std::endl;
-    return 2;
-  }
-  if ((ipos_min == 0 || ipos_min == exp.size() - 1) && itype_min == 3) {
-    std::cerr << "Error!-->Binary operator misplaced " << std::endl;
-    return 9;
-  }
-  if (iFirstBracket == 0 && ipos_min == UINT_MAX) {
-    std::cerr << "Error!-->(hoge)foo" << std::endl;
-    return 3;
-  }
-  // binary operator(+とか-)
-  if (ipos_min != UINT_MAX) {
-//    std::cout << ipos_min << " " << itype_min << std::endl;
-    assert(itype_min == 3);
-    assert(iopr_min != -1);
-    ibegin = ipos_min;
-    iend = ipos_min + 1;
-    itype = itype_min;
-    iopr = iopr_min;
-    return 0;
-  }
-  // sign operator( -hoge )
-  if (ipos_min == 0) {   // this looks always false
-    assert(itype_min == 2);
-    assert(iopr_min != -1);
-    ibegin = ipos_min;
-    iend = ipos_min + 1;
-    itype = itype_min;
-    iopr = iopr_min;
-    return 0;
-  }
-  // preposition operator ( sin, tanみたいの )
-  if (!is_numeric && iFirstBracket != UINT_MAX) {
-    if (exp[exp.size() - 1] != ')') {  // avoid  sin(x+y)a
-      std::cout << "Error!-->hoge1" << std::endl;
-      return 1;
-    }
-    if (iFirstBracket == exp.size() - 2) {  // avoid sin()
-      std::cout << "Error!-->hoge2" << std::endl;
-      return 2;
-    }
-    std::string str1(exp, 0, iFirstBracket);
-    int iopr0 = CUnaryOperator::GetOprInd(str1);
-    if (iopr0 != -1) {
-      ibegin = 0;
-      iend = iFirstBracket;
-      itype = 2;
-      iopr = iopr0;
-      return 0;
-    } else {
-      std::cout << "Error!-->Unregistered Unary Operator" << std::endl;
-      return 1;
-    }
-  }
-  // variable
-  ibegin = 0;
-  iend = static_cast<unsigned int>(exp.size());
-  if (is_numeric) {
-    itype = 0;
-    iopr = -1;
-  }  // 数値(5.4321みたいの)
-  else {
-    int iopr0 = COperand::GetOprInd(exp);
-    if (iopr0 != -1) {
-      itype = 1;
-      iopr = iopr0;
-    }  // PIみたいなの
-    else {
-      itype = 1;
-      iopr = -1;
-    }
-  }
-  return 0;
-}
-
-struct SExpCompo {
-  std::string sOpe;
-  int iOpeType;
-  int iOpe;
-};
-
-bool MakeRPN(
-  unsigned int icur_old,
-  std::vector<SExpCompo> &exp_node_vec) {
-  assert(icur_old < exp_node_vec.size());
-
-  unsigned int ibegin0, iend0;
-  int itype0, iopr0;
-  {
-    std::string &cur_exp = exp_node_vec[icur_old].sOpe;
-    unsigned int itmp0, itmp1;
-    int itmp2, itmp3;
-    int ierr = GetLowestPriorityOperator(itmp0, itmp1, itmp2, itmp3, cur_exp);
-    if (ierr != 0) {
-      std::cout << "Error!-->Cannot interprit this expression : " << cur_exp << std::endl;
-      return false;
-    }
-    if (itmp0 == 0 && itmp1 == cur_exp.size()) {  // case operand 算術数値(PIみたいなの)
-      assert(itmp2 == 0 || itmp2 == 1);
-      assert(itmp3 >= -1 && itmp3 <= COperand::GetMaxOprInd());
-      exp_node_vec[icur_old].iOpeType = itmp2;
-      exp_node_vec[icur_old].iOpe = itmp3;
-      return true;
-    }
-    assert(itmp2 != 0 && itmp2 != 1);
-    ibegin0 = static_cast<unsigned int>(itmp0);
-    iend0 = static_cast<unsigned int>(itmp1);
-    assert(itmp2 >= 0 && itmp2 <= 3);
-    itype0 = itmp2;
-    assert((itmp2 == 2 && itmp3 >= 0 && itmp3 <= CUnaryOperator::MaxOprInd()) ||
-      (itmp2 == 3 && itmp3 >= 0 && itmp3 <= CBinaryOperator::MaxOprInd()));
-    iopr0 = itmp3;
-  }
-
-  std::string cur_old_exp = exp_node_vec[icur_old].sOpe;
-
-  {
-    unsigned int ileft = icur_old;
-    SExpCompo &left_compo = exp_node_vec[ileft];
-    left_compo.sOpe.assign(cur_old_exp, iend0, cur_old_exp.size() - iend0);
-    RemoveExpressionBracket(left_compo.sOpe);
-    if (left_compo.sOpe.empty()) { return false; }
-    if (!MakeRPN(ileft, exp_node_vec)) { return false; }
-  }
-
-  if (ibegin0 > 0) {
-    const unsigned int iright = static_cast<unsigned int>(exp_node_vec.size());
-    exp_node_vec.resize(exp_node_vec.size() + 1);
-    SExpCompo &right_compo = exp_node_vec[iright];
-    right_compo.sOpe.assign(cur_old_exp, 0, ibegin0);
-    RemoveExpressionBracket(right_compo.sOpe);
-    if (right_compo.sOpe.empty()) { return false; }
-    if (!MakeRPN(iright, exp_node_vec)) { return false; }
-  }
-
-  {
-    const size_t icur_new = exp_node_vec.size();
-    exp_node_vec.resize(exp_node_vec.size() + 1);
-    SExpCompo &new_compo = exp_node_vec[icur_new];
-    new_compo.sOpe.assign(cur_old_exp, ibegin0, iend0 - ibegin0);
-    new_compo.iOpeType = itype0;
-    new_compo.iOpe = iopr0;
-  }
-
-  return true;
-}
-
-bool MakeCmdAry(
-  std::vector<CCmd *> &cmd_vec,
-  std::vector<CKey> &m_aKey,
-  const std::vector<SExpCompo> &exp_node_vec) {
-  cmd_vec.resize(exp_node_vec.size(), nullptr);
-  for (unsigned int iexp = 0; iexp < exp_node_vec.size(); iexp++) {
-    const SExpCompo &compo = exp_node_vec[iexp];
-    if (compo.iOpeType == 0) { // numeric
-      char *e;
-      double val = strtod(compo.sOpe.c_str(), &e);
-      if (errno != ERANGE) {
-        cmd_vec[iexp] = new COperand(val);
-      } else if (val == HUGE_VAL) {
-        std::cout << "Exceeding the range of (double)" << std::endl;
-        return false;
-      }
-    } else if (compo.iOpeType == 1) { // symbol
-      if (compo.iOpe == -1) {
-        bool bflg = false;
-        for (auto &ikey: m_aKey) {
-          if (ikey.m_Name == compo.sOpe) {
-            ikey.m_aiCmd.push_back(iexp);
-            bflg = true;
-            break;
-          }
-        }
-        if (!bflg) {
-          std::cout << "次のオペランドを解釈できませんでした:" << compo.sOpe << std::endl;
-          return false;
-        }
-        cmd_vec[iexp] = new COperand(0.0);
-      } else {
-        int iopr0 = compo.iOpe;
-        if (iopr0 >= 0 && iopr0 <= COperand::GetMaxOprInd()) {
-          cmd_vec[iexp] = new COperand(COperand::GetValue(compo.iOpe));
-        } else {
-          std::cout << "Not assumed Operand" << std::endl;
-          assert(0);
-        }
-      }
-    } else if (compo.iOpeType == 2) { // unary
-      cmd_vec[iexp] = new CUnaryOperator(compo.iOpe);
-    } else if (compo.iOpeType == 3) { // binary
-      cmd_vec[iexp] = new CBinaryOperator(compo.iOpe);
-    } else {
-      std::cout << "Error!--> " << compo.sOpe << " " << compo.iOpeType << std::endl;
-      assert(0);
-    }
-  }
-  return true;
-}
-
-} // delfem2::parse_math_expression
-
-// above: unexposed
-// ---------------------------------------------------------
-// below: exposed
-
-delfem2::CMathExpressionEvaluator::~CMathExpressionEvaluator() {
-  for (auto &icmd: m_apCmd) {
-    delete icmd;
-  }
-}
-
-void delfem2::CMathExpressionEvaluator::SetKey(
-  const std::string &key_name, double key_val) {
-  for (auto &ikey: m_aKey) {
-    if (ikey.m_Name == key_name) {
-      ikey.m_Val = key_val;
-      for (unsigned int icmd0: ikey.m_aiCmd) {    // このKeyをもっている全てのCmdに値をセット
-        assert(icmd0 < m_apCmd.size());
-        m_apCmd[icmd0]->SetValue(key_val);
-      }
-      return;
-    }
-  }
-  // 未登録のKeyの場合は以下のルーティン
-  m_aKey.emplace_back(key_name, key_val);
-}
-
-bool delfem2::CMathExpressionEvaluator::SetExp(
-  const std::string &exp) {
-  namespace lcl = delfem2::parse_math_expression;
-  m_is_valid = false;
-  m_sExp = exp;
-  // 消去
-  for (auto &icmd: m_apCmd) { delete icmd; }
-  for (auto &ikey: m_aKey) { ikey.m_aiCmd.clear(); }
-  m_apCmd.clear();
-
-  std::string tmp_exp = exp;
-  lcl::RemoveExpressionSpaceNewline(tmp_exp);
-  lcl::RemoveExpressionBracket(tmp_exp);
-  if (tmp_exp.empty()) {
-    m_is_valid = false;
-    return false;
-  }
-  {
-    std::vector<lcl::SExpCompo> exp_vec;
-    exp_vec.reserve(exp.size());
-    exp_vec.resize(1);
-    exp_vec[0].sOpe = tmp_exp;
-    if (!MakeRPN(0, exp_vec)) {
-      m_is_valid = false;
-      return false;
-    }
-
-/*		{	// 逆ポーランド表記を表示
-			for(unsigned int iexno=0;iexno<exp_vec.size();iexno++){
-				std::cout << exp_vec[iexno].sOpe << " ";
-			}
-			std::cout << std::endl;
-		}*/
-
-    if (!MakeCmdAry(m_apCmd, m_aKey,
-                    exp_vec)) {
-      m_is_valid = false;
-      return false;
-    }
-
-/*
-		int iflg = true;
-		int stack_size = 0;
-		for(int icmd=0;icmd<m_apCmd.size();icmd++){
-			if( dynamic_cast<COperand*>(m_apCmd[icmd]) != NULL ){
-				stack_size++;
-			}
-			else if( dynamic_cast<CUnaryOperator*>(m_apCmd[icmd]) != NULL ){
-				if( stack_size <= 0 ) iflg = false; break;
-			}
-			else if( dynamic_cast<CBinaryOperator*>(m_apCmd[icmd]) != NULL ){
-				if( stack_size <= 1 ) iflg = false;	break;
-			}
-		}
-		if( !iflg ){
-			std::cout << "Error!-->Operator and Operand mismatch" << std::endl;
-			m_bValid = false;
-			return false;
-		}
-*/
-  }
-  {    // 登録されているキー全ての値を設定
-    for (const auto &key: m_aKey) {
-      double val = key.m_Val;
-      for (unsigned int icmd0: key.m_aiCmd) {    // このKeyをもっている全てのCmdに値をセット
-        assert(icmd0 < m_apCmd.size());
-        m_apCmd[icmd0]->SetValue(val);
-      }
-    }
-  }
-  m_is_valid = true;
-  return true;
-}
-
-double delfem2::CMathExpressionEvaluator::Eval() const { // evaluating the math expression
-  std::vector<double> stack;
-  stack.reserve(128);
-  for (auto icmd: m_apCmd) {
-    icmd->DoOperation(stack);
-  }
-  assert(stack.size() == 1);
-  return stack[0];
-}
+/*
+ * Copyright (c) 2019 Nobuyuki Umetani
+ *
+ * This source code is licensed under the MIT license found in the
+ * LICENSE file in the root directory of this source tree.
+ */
+
+#include "delfem2/parse_math_expression.h"
+
+#include <cassert>
+#include <cerrno>    /* Need for Using "ERANGE" */
+#include <cmath>    /* Need for Using "HUGE_VAL" */
+#include <iostream>
+#include <climits>
+
+namespace delfem2::parse_math_expression {
+
+class COperand : public CCmd {
+ public:
+  ~COperand() override = default;
+  explicit COperand(const double val) { m_Value = val; }
+
+  bool DoOperation(std::vector<double> &stack) override {
+    stack.push_back(m_Value);
+    return true;
+  }
+  static double GetValue(const int iopr) {
+    switch (iopr) {
+      case 0:return 3.14159265358979;
+      default:assert(0);
+        return 0.0;
+    }
+    return 0.0;
+  }
+  static int GetMaxOprInd() { return 0; }
+  void SetValue(const double &val) override { m_Value = val; }
+  static int GetOprInd(const std::string &str1) {
+    if (str1 == "PI") { return 0; }
+    else { return -1; }
+    return -1;
+  }
+ private:
+  double m_Value;
+};
+
+class CBinaryOperator : public CCmd {
+ public:
+  ~CBinaryOperator() override = default;
+  explicit CBinaryOperator(const unsigned int iopr) {
+    assert(iopr < 5);
+    m_iOpr = iopr;
+  }
+
+  bool DoOperation(std::vector<double> &stack) override {
+    const double dright = stack.back();
+    stack.pop_back();
+    double &dleft = stack.back();
+    switch (m_iOpr) {
+      case 0:dleft = dleft + dright;
+        return true;
+      case 1:dleft = dright - dleft;
+        return true;
+      case 2:dleft = dleft * dright;
+        return true;
+      case 3:
+        if (fabs(dleft) < 1.0e-20) {
+          dleft = 0.0;
+          return false;
+        }
+        dleft = dright / dleft;
+        return true;
+      case 4:dleft = pow(dright, dleft);
+        return true;
+      default:std::cout << "Error!-->Illegal iOpr " << m_iOpr << std::endl;
+        assert(0);
+    }
+    return false;
+  }
+  static int MaxOprInd() { return 4; }
+  void SetValue(
+    [[maybe_unused]] const double &val) override {
+    assert(0);
+  };
+  unsigned int m_iOpr;
+};
+
+class CUnaryOperator : public CCmd {
+ public:
+  ~CUnaryOperator() override = default;
+  explicit CUnaryOperator(const int iopr) {
+    assert(iopr >= 0 && iopr <= MaxOprInd());
+    m_iOpr = iopr;
+  }
+  bool DoOperation(std::vector<double> &stack) override {
+    const double dright = stack.back();
+    double &dleft = stack.back();
+    switch (m_iOpr) {
+      case 0: dleft = dright;
+        return true;
+      case 1: dleft = -dright;
+        return true;
+      case 2: dleft = fabs(dright);
+        return true;
+      case 8: dleft = floor(dright);
+        return true;
+      case 3: dleft = exp(dright);
+        return true;
+      case 4: dleft = sin(dright);
+        return true;
+      case 5: dleft = cos(dright);
+        return true;
+      case 6:
+        if (dright > 1.0e-30) {
+          dleft = sqrt(dright);
+          return true;
+        } else {
+          dleft = 0.0;
+          return false;
+        }
+      case 7:
+        if (dright > 1.0e-30) {
+          dleft = log(dright);
+          return true;
+        } else {
+          dleft = 0.0;
+          return false;
+        }
+      default:std::cout << "Error!-->Illegal iOpr " << m_iOpr << std::endl;
+        assert(0);
+    }
+    return false;
+  }
+  static int MaxOprInd() { return 8; }
+  static int GetOprInd(const std::string &str1) {
+    if (str1 == "+") return 0;
+    else if (str1 == "-") return 1;
+    else if (str1 == "abs") return 2;
+    else if (str1 == "floor") return 8;
+    else if (str1 == "exp") return 3;
+    else if (str1 == "sin") return 4;
+    else if (str1 == "cos") return 5;
+    else if (str1 == "sqrt") return 6;
+    else if (str1 == "log") return 7;
+    return -1;
+  }
+  void SetValue(
+    [[maybe_unused]] const double &val) override {
+    assert(0);
+  }
+ private:
+  int m_iOpr;
+};
+
+// -------------------------------------
+
+DFM2_INLINE void RemoveExpressionSpaceNewline(std::string &exp) {
+  const std::string stemp(exp);
+  unsigned int iexp = 0;
+  for (char itemp: stemp) {
+    if (itemp == ' ' || itemp == 0x0d || itemp == 0x0a) continue;
+    exp[iexp] = itemp;
+    iexp++;
+  }
+  exp.resize(iexp);
+}
+
+DFM2_INLINE void RemoveExpressionBracket(std::string &exp) {
+  if (exp[0] != '(' || exp[exp.size() - 1] != ')') return;
+  {
+    int iBracketDepth = 1;
+    for (size_t ipos = 1; ipos < exp.size() - 1; ipos++) {
+      if (exp[ipos] == '(') { iBracketDepth++; }
+      if (exp[ipos] == ')') { iBracketDepth--; }
+      if (iBracketDepth == 0) return;
+    }
+  }
+  {
+    std::string stemp(exp);
+    for (size_t ipos = 1; ipos < exp.size() - 1; ipos++) {
+      exp[ipos - 1] = stemp[ipos];
+    }
+    exp.resize(exp.size() - 2);
+  }
+  RemoveExpressionBracket(exp);
+}
+
+DFM2_INLINE bool IsOperatorCharacter(char c) {
+  return c == '+' || c == '-' || c == '*' || c == '/' || c == '^';
+}
+
+/**
+ * 引数expの中のもっとも優先順位の低いオペレターを検索する。
+ * itypeはオペレターの種類
+ * itype : 0 --> Numerical variable
+ * itype : 1 --> Argebric variable
+ * itype : 2 --> Unary Operator
+ * itype : 3 --> Binary Operator
+ */
+int GetLowestPriorityOperator(
+  unsigned int &ibegin,
+  unsigned int &iend,
+  int &itype,
+  int &iopr,
+  const std::string &exp) {
+  itype = -1;
+  iopr = -1;
+
+  const int ipriority_max = 10;
+
+  unsigned int ipos_min = UINT_MAX;
+  int ipriority_min = ipriority_max;
+  int itype_min = -1;
+  int iopr_min = -1;
+
+  bool is_numeric = true;
+  int iBracketDepth = 0;
+  unsigned int iFirstBracket = UINT_MAX;
+  for (unsigned int ipos_curr = 0; ipos_curr < exp.size(); ipos_curr++) {
+    // 括弧内を読み飛ばす
+    switch (exp[ipos_curr]) {
+      case '(':if (iFirstBracket == UINT_MAX) iFirstBracket = ipos_curr;
+        iBracketDepth++;
+        continue;
+      case ')':iBracketDepth--;
+        continue;
+      default:if (iBracketDepth != 0) continue;
+    }
+    assert(iBracketDepth == 0);
+
+    // ipriority_currを計算する
+    int ipriority_curr;
+    int itype_curr = -1;
+    int iopr_curr = -1;
+    switch (exp[ipos_curr]) {
+      case '+':ibegin = ipos_curr;
+        iend = ipos_curr + 1;
+        if (ipos_curr == 0) { // sign operator
+          ipriority_curr = 5;
+          itype_curr = 2;
+          iopr_curr = 0;
+          break;
+        } else if (!IsOperatorCharacter(exp[ipos_curr - 1])) { // binary operator
+          ipriority_curr = 1;
+          itype_curr = 3;
+          iopr_curr = 0;
+          break;
+        }
+        continue;
+      case '-':ibegin = ipos_curr;
+        iend = ipos_curr + 1;
+        if (ipos_curr == 0) { // sign operator
+          ipriority_curr = 5;
+          itype_curr = 2;
+          iopr_curr = 1;
+          break;
+        } else if (!IsOperatorCharacter(exp[ipos_curr - 1])) { // binary operator
+          ipriority_curr = 1;
+          itype_curr = 3;
+          iopr_curr = 1;
+          break;
+        }
+        continue;
+      case '*':ipriority_curr = 3;
+        itype_curr = 3;
+        iopr_curr = 2;
+        break;
+      case '/':ipriority_curr = 3;
+        itype_curr = 3;
+        iopr_curr = 3;
+        break;
+      case '^':ipriority_curr = 6;
+        itype_curr = 3;
+        iopr_curr = 4;
+        break;
+      default:ipriority_curr = ipriority_max;
+        if ((exp[ipos_curr] < '0' || exp[ipos_curr] > '9') && exp[ipos_curr] != '.') {
+          is_numeric = false;
+        }
+        break;
+    }
+    // the last one of the left-associative operators is evaluated last
+    if (ipriority_curr < ipriority_min || (ipriority_curr == ipriority_min && ipriority_curr <= 3)) {
+      ipos_min = ipos_curr;
+      ipriority_min = ipriority_curr;
+      itype_min = itype_curr;
+      iopr_min = iopr_curr;
+    }
+  }
+
+  if (iBracketDepth != 0) {
+    std::cerr << "Error!-->Not corresponding bracket" << std::endl;
+    return 2;
+  }
+  if ((ipos_min == 0 || ipos_min == exp.size() - 1) && itype_min == 3) {
+    std::cerr << "Error!-->Binary operator misplaced " << std::endl;
+    return 9;
+  }
+  if (iFirstBracket == 0 && ipos_min == UINT_MAX) {
+    std::cerr << "Error!-->(hoge)foo" << std::endl;
+    return 3;
+  }
+  // binary operator(+とか-)
+  if (ipos_min != UINT_MAX) {
+//    std::cout << ipos_min << " " << itype_min << std::endl;
+    assert(itype_min == 3);
+    assert(iopr_min != -1);
+    ibegin = ipos_min;
+    iend = ipos_min + 1;
+    itype = itype_min;
+    iopr = iopr_min;
+    return 0;
+  }
+  // sign operator( -hoge )
+  if (ipos_min == 0) {   // this looks always false
+    assert(itype_min == 2);
+    assert(iopr_min != -1);
+    ibegin = ipos_min;
+    iend = ipos_min + 1;
+    itype = itype_min;
+    iopr = iopr_min;
+    return 0;
+  }
+  // preposition operator ( sin, tanみたいの )
+  if (!is_numeric && iFirstBracket != UINT_MAX) {
+    if (exp[exp.size() - 1] != ')') {  // avoid  sin(x+y)a
+      std::cout << "Error!-->hoge1" << std::endl;
+      return 1;
+    }
+    if (iFirstBracket == exp.size() - 2) {  // avoid sin()
+      std::cout << "Error!-->hoge2" << std::endl;
+      return 2;
+    }
+    std::string str1(exp, 0, iFirstBracket);
+    int iopr0 = CUnaryOperator::GetOprInd(str1);
+    if (iopr0 != -1) {
+      ibegin = 0;
+      iend = iFirstBracket;
+      itype = 2;
+      iopr = iopr0;
+      return 0;
+    } else {
+      std::cout << "Error!-->Unregistered Unary Operator" << std::endl;
+      return 1;
+    }
+  }
+  // variable
+  ibegin = 0;
+  iend = static_cast<unsigned int>(exp.size());
+  if (is_numeric) {
+    itype = 0;
+    iopr = -1;
+  }  // 数値(5.4321みたいの)
+  else {
+    int iopr0 = COperand::GetOprInd(exp);
+    if (iopr0 != -1) {
+      itype = 1;
+      iopr = iopr0;
+    }  // PIみたいなの
+    else {
+      itype = 1;
+      iopr = -1;
+    }
+  }
+  return 0;
+}
+
+struct SExpCompo {
+  std::string sOpe;
+  int iOpeType;
+  int iOpe;
+};
+
+bool MakeRPN(
+  unsigned int icur_old,
+  std::vector<SExpCompo> &exp_node_vec) {
+  assert(icur_old < exp_node_vec.size());
+
+  unsigned int ibegin0, iend0;
+  int itype0, iopr0;
+  {
+    std::string &cur_exp = exp_node_vec[icur_old].sOpe;
+    unsigned int itmp0, itmp1;
+    int itmp2, itmp3;
+    int ierr = GetLowestPriorityOperator(itmp0, itmp1, itmp2, itmp3, cur_exp);
+    if (ierr != 0) {
+      std::cout << "Error!-->Cannot interprit this expression : " << cur_exp << std::endl;
+      return false;
+    }
+    if (itmp0 == 0 && itmp1 == cur_exp.size()) {  // case operand 算術数値(PIみたいなの)
+      assert(itmp2 == 0 || itmp2 == 1);
+      assert(itmp3 >= -1 && itmp3 <= COperand::GetMaxOprInd());
+      exp_node_vec[icur_old].iOpeType = itmp2;
+      exp_node_vec[icur_old].iOpe = itmp3;
+      return true;
+    }
+    assert(itmp2 != 0 && itmp2 != 1);
+    ibegin0 = static_cast<unsigned int>(itmp0);
+    iend0 = static_cast<unsigned int>(itmp1);
+    assert(itmp2 >= 0 && itmp2 <= 3);
+    itype0 = itmp2;
+    assert((itmp2 == 2 && itmp3 >= 0 && itmp3 <= CUnaryOperator::MaxOprInd()) ||
+      (itmp2 == 3 && itmp3 >= 0 && itmp3 <= CBinaryOperator::MaxOprInd()));
+    iopr0 = itmp3;
+  }
+
+  std::string cur_old_exp = exp_node_vec[icur_old].sOpe;
+
+  {
+    unsigned int ileft = icur_old;
+    SExpCompo &left_compo = exp_node_vec[ileft];
+    left_compo.sOpe.assign(cur_old_exp, iend0, cur_old_exp.size() - iend0);
+    RemoveExpressionBracket(left_compo.sOpe);
+    if (left_compo.sOpe.empty()) { return false; }
+    if (!MakeRPN(ileft, exp_node_vec)) { return false; }
+  }
+
+  if (ibegin0 > 0) {
+    const unsigned int iright = static_cast<unsigned int>(exp_node_vec.size());
+    exp_node_vec.resize(exp_node_vec.size() + 1);
+    SExpCompo &right_compo = exp_node_vec[iright];
+    right_compo.sOpe.assign(cur_old_exp, 0, ibegin0);
+    RemoveExpressionBracket(right_compo.sOpe);
+    if (right_compo.sOpe.empty()) { return false; }
+    if (!MakeRPN(iright, exp_node_vec)) { return false; }
+  }
+
+  {
+    const size_t icur_new = exp_node_vec.size();
+    exp_node_vec.resize(exp_node_vec.size() + 1);
+    SExpCompo &new_compo = exp_node_vec[icur_new];
+    new_compo.sOpe.assign(cur_old_exp, ibegin0, iend0 - ibegin0);
+    new_compo.iOpeType = itype0;
+    new_compo.iOpe = iopr0;
+  }
+
+  return true;
+}
+
+bool MakeCmdAry(
+  std::vector<CCmd *> &cmd_vec,
+  std::vector<CKey> &m_aKey,
+  const std::vector<SExpCompo> &exp_node_vec) {
+  cmd_vec.resize(exp_node_vec.size(), nullptr);
+  for (unsigned int iexp = 0; iexp < exp_node_vec.size(); iexp++) {
+    const SExpCompo &compo = exp_node_vec[iexp];
+    if (compo.iOpeType == 0) { // numeric
+      char *e;
+      double val = strtod(compo.sOpe.c_str(), &e);
+      if (errno != ERANGE) {
+        cmd_vec[iexp] = new COperand(val);
+      } else if (val == HUGE_VAL) {
+        std::cout << "Exceeding the range of (double)" << std::endl;
+        return false;
+      }
+    } else if (compo.iOpeType == 1) { // symbol
+      if (compo.iOpe == -1) {
+        bool bflg = false;
+        for (auto &ikey: m_aKey) {
+          if (ikey.m_Name == compo.sOpe) {
+            ikey.m_aiCmd.push_back(iexp);
+            bflg = true;
+            break;
+          }
+        }
+        if (!bflg) {
+          std::cout << "次のオペランドを解釈できませんでした:" << compo.sOpe << std::endl;
+          return false;
+        }
+        cmd_vec[iexp] = new COperand(0.0);
+      } else {
+        int iopr0 = compo.iOpe;
+        if (iopr0 >= 0 && iopr0 <= COperand::GetMaxOprInd()) {
+          cmd_vec[iexp] = new COperand(COperand::GetValue(compo.iOpe));
+        } else {
+          std::cout << "Not assumed Operand" << std::endl;
+          assert(0);
+        }
+      }
+    } else if (compo.iOpeType == 2) { // unary
+      cmd_vec[iexp] = new CUnaryOperator(compo.iOpe);
+    } else if (compo.iOpeType == 3) { // binary
+      cmd_vec[iexp] = new CBinaryOperator(compo.iOpe);
+    } else {
+      std::cout << "Error!--> " << compo.sOpe << " " << compo.iOpeType << std::endl;
+      assert(0);
+    }
+  }
+  return true;
+}
+
+} // delfem2::parse_math_expression
+
+// above: unexposed
+// ---------------------------------------------------------
+// below: exposed
+
+delfem2::CMathExpressionEvaluator::~CMathExpressionEvaluator() {
+  for (auto &icmd: m_apCmd) {
+    delete icmd;
+  }
+}
+
+void delfem2::CMathExpressionEvaluator::SetKey(
+  const std::string &key_name, double key_val) {
+  for (auto &ikey: m_aKey) {
+    if (ikey.m_Name == key_name) {
+      ikey.m_Val = key_val;
+      for (unsigned int icmd0: ikey.m_aiCmd) {    // このKeyをもっている全てのCmdに値をセット
+        assert(icmd0 < m_apCmd.size());
+        m_apCmd[icmd0]->SetValue(key_val);
+      }
+      return;
+    }
+  }
+  // 未登録のKeyの場合は以下のルーティン
+  m_aKey.emplace_back(key_name, key_val);
+}
+
+bool delfem2::CMathExpressionEvaluator::SetExp(
+  const std::string &exp) {
+  namespace lcl = delfem2::parse_math_expression;
+  m_is_valid = false;
+  m_sExp = exp;
+  // 消去
+  for (auto &icmd: m_apCmd) { delete icmd; }
+  for (auto &ikey: m_aKey) { ikey.m_aiCmd.clear(); }
+  m_apCmd.clear();
+
+  std::string tmp_exp = exp;
+  lcl::RemoveExpressionSpaceNewline(tmp_exp);
+  lcl::RemoveExpressionBracket(tmp_exp);
+  if (tmp_exp.empty()) {
+    m_is_valid = false;
+    return false;
+  }
+  {
+    std::vector<lcl::SExpCompo> exp_vec;
+    exp_vec.reserve(exp.size());
+    exp_vec.resize(1);
+    exp_vec[0].sOpe = tmp_exp;
+    if (!MakeRPN(0, exp_vec)) {
+      m_is_valid = false;
+      return false;
+    }
+
+/*		{	// 逆ポーランド表記を表示
+			for(unsigned int iexno=0;iexno<exp_vec.size();iexno++){
+				std::cout << exp_vec[iexno].sOpe << " ";
+			}
+			std::cout << std::endl;
+		}*/
+
+    if (!MakeCmdAry(m_apCmd, m_aKey,
+                    exp_vec)) {
+      m_is_valid = false;
+      return false;
+    }
+
+/*
+		int iflg = true;
+		int stack_size = 0;
+		for(int icmd=0;icmd<m_apCmd.size();icmd++){
+			if( dynamic_cast<COperand*>(m_apCmd[icmd]) != NULL ){
+				stack_size++;
+			}
+			else if( dynamic_cast<CUnaryOperator*>(m_apCmd[icmd]) != NULL ){
+				if( stack_size <= 0 ) iflg = false; break;
+			}
+			else if( dynamic_cast<CBinaryOperator*>(m_apCmd[icmd]) != NULL ){
+				if( stack_size <= 1 ) iflg = false;	break;
+			}
+		}
+		if( !iflg ){
+			std::cout << "Error!-->Operator and Operand mismatch" << std::endl;
+			m_bValid = false;
+			return false;
+		}
+*/
+  }
+  {    // 登録されているキー全ての値を設定
+    for (const auto &key: m_aKey) {
+      double val = key.m_Val;
+      for (unsigned int icmd0: key.m_aiCmd) {    // このKeyをもっている全てのCmdに値をセット
+        assert(icmd0 < m_apCmd.size());
+        m_apCmd[icmd0]->SetValue(val);
+      }
+    }
+  }
+  m_is_valid = true;
+  return true;
+}
+
+double delfem2::CMathExpressionEvaluator::Eval() const { // evaluating the math expression
+  std::vector<double> stack;
+  stack.reserve(128);
+  for (auto icmd: m_apCmd) {
+    icmd->DoOperation(stack);
+  }
+  assert(stack.size() == 1);
+  return stack[0];
+}
-- 
2.43.0


From a0fc034de39d25bef7fe3fb093538e15c87e9608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 044/196] fix: an expression with a leading sign failed an
 assertion

---
 include/delfem2/parse_math_expression.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index d71010b..e2468a5 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -299,20 +299,10 @@ int GetLowestPriorityOperator(
     std::cerr << "Error!-->(hoge)foo" << std::endl;
     return 3;
   }
-  // binary operator(+とか-)
+  // binary operator(+とか-) or sign operator( -hoge )
   if (ipos_min != UINT_MAX) {
 //    std::cout << ipos_min << " " << itype_min << std::endl;
-    assert(itype_min == 3);
-    assert(iopr_min != -1);
-    ibegin = ipos_min;
-    iend = ipos_min + 1;
-    itype = itype_min;
-    iopr = iopr_min;
-    return 0;
-  }
-  // sign operator( -hoge )
-  if (ipos_min == 0) {   // this looks always false
-    assert(itype_min == 2);
+    assert(itype_min == 3 || itype_min == 2);
     assert(iopr_min != -1);
     ibegin = ipos_min;
     iend = ipos_min + 1;
-- 
2.43.0


From d72ad70462e8fda7889143fd8d48c589ba7f179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 045/196] fix: a closing bracket without an opening one was
 evaluated to zero

---
 include/delfem2/parse_math_expression.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index e2468a5..2c0d3d1 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -222,6 +222,10 @@ int GetLowestPriorityOperator(
         iBracketDepth++;
         continue;
       case ')':iBracketDepth--;
+        if (iBracketDepth < 0) {
+          std::cerr << "Error!-->Not corresponding bracket" << std::endl;
+          return 2;
+        }
         continue;
       default:if (iBracketDepth != 0) continue;
     }
-- 
2.43.0


From 2d3e1a5ca3e3d9d53983ce269d021aa1559960ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 046/196] fix: text that is not a number was evaluated, and a
 number was lost when errno was set before

---
 include/delfem2/parse_math_expression.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index 2c0d3d1..fe61b94 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -439,13 +439,17 @@ bool MakeCmdAry(
     const SExpCompo &compo = exp_node_vec[iexp];
     if (compo.iOpeType == 0) { // numeric
       char *e;
+      errno = 0;
       double val = strtod(compo.sOpe.c_str(), &e);
-      if (errno != ERANGE) {
-        cmd_vec[iexp] = new COperand(val);
-      } else if (val == HUGE_VAL) {
+      if (e == compo.sOpe.c_str() || *e != '\0') {
+        std::cout << "Error!--> not a number: " << compo.sOpe << std::endl;
+        return false;
+      }
+      if (errno == ERANGE && val == HUGE_VAL) {
         std::cout << "Exceeding the range of (double)" << std::endl;
         return false;
       }
+      cmd_vec[iexp] = new COperand(val);
     } else if (compo.iOpeType == 1) { // symbol
       if (compo.iOpe == -1) {
         bool bflg = false;
-- 
2.43.0


From 0b0d4d049b6575e6c62986746bfc23e41063b4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 047/196] fix: copying an expression evaluator deleted its
 commands twice

---
 include/delfem2/parse_math_expression.h | 157 +++++++++++++-----------
 1 file changed, 83 insertions(+), 74 deletions(-)

diff --git a/include/delfem2/parse_math_expression.h b/include/delfem2/parse_math_expression.h
index 01a4653..a1faaf6 100644
--- a/include/delfem2/parse_math_expression.h
+++ b/include/delfem2/parse_math_expression.h
@@ -1,74 +1,83 @@
-/*
- * Copyright (c) 2019 Nobuyuki Umetani
- *
- * This source code is licensed under the MIT license found in the
- * LICENSE file in the root directory of this source tree.
- */
-
-
-#ifndef DFM2_PARSE_MATH_EXPRESSION_H
-#define DFM2_PARSE_MATH_EXPRESSION_H
-
-#include <iostream>
-#include <string>
-#include <vector>
-
-#include "delfem2/dfm2_inline.h"
-
-namespace delfem2::parse_math_expression {
-
-class CCmd {
- public:
-  virtual ~CCmd() = default;
-  virtual bool DoOperation(std::vector<double> &stack) = 0;
-  virtual void SetValue(const double &val) = 0;
-};
-
-class CKey {    // class for storing values of key
- public:
-  CKey(const std::string &name, double val)
-    : m_Name(name), m_Val(val) {}
-  std::string m_Name;
-  std::vector<unsigned int> m_aiCmd;
-  double m_Val;
-};
-
-}
-
-// ----------------------
-
-namespace delfem2 {
-
-class CMathExpressionEvaluator {
- public:
-  CMathExpressionEvaluator() { m_is_valid = false; }
-  CMathExpressionEvaluator(const std::string &exp) { this->SetExp(exp); }
-  ~CMathExpressionEvaluator();
-
-  // --------------------
-  bool SetExp(const std::string &key_name);
-  void SetKey(const std::string &key_name, double val);
-  bool IsKeyUsed(const std::string &key_name) {
-    for (unsigned int ikey = 0; ikey < m_aKey.size(); ikey++) {
-      if (m_aKey[ikey].m_Name == key_name) {
-        if (!m_aKey[ikey].m_aiCmd.empty()) return true;
-        return false;
-      }
-    }
-    return false;
-  }
-  double Eval() const;
- private:
-  bool m_is_valid;
-  std::string m_sExp;
-  std::vector<parse_math_expression::CCmd *> m_apCmd;    // 逆ポーランド記法された演算子や値の列
-  std::vector<parse_math_expression::CKey> m_aKey;    // 文字列の名前と値が，どのIndexのコマンドに格納されているか
-};
-
-}
-
-#ifndef DFM2_STATIC_LIBRARY
-#  include "delfem2/parse_math_expression.cpp"
-#endif
-
-#endif    // DFM2_PARSE_MATH_EXPRESSION_H
+/*
+ * Copyright (c) 2019 Nobuyuki Umetani
+ *
+ * This source code is licensed under the MIT license found in the
+ * LICENSE file in the root directory of this source tree.
+ */
+
+
+#ifndef DFM2_PARSE_MATH_EXPRESSION_H
+#define DFM2_PARSE_MATH_EXPRESSION_H
+
+#include <iostream>
+#include <string>
+#include <vector>
+
+#include "delfem2/dfm2_inline.h"
+
+namespace delfem2::parse_math_expression {
+
+class CCmd {
+ public:
+  virtual ~CCmd() = default;
+  virtual bool DoOperation(std::vector<double> &stack) = 0;
+  virtual void SetValue(const double &val) = 0;
+};
+
+class CKey {    // class for storing values of key
+ public:
+  CKey(const std::string &name, double val)
+    : m_Name(name), m_Val(val) {}
+  std::string m_Name;
+  std::vector<unsigned int> m_aiCmd;
+  double m_Val;
+};
+
+}
+
+// ----------------------
+
+namespace delfem2 {
+
+class CMathExpressionEvaluator {
+ public:
+  CMathExpressionEvaluator() { m_is_valid = false; }
+  CMathExpressionEvaluator(const std::string &exp) { this->SetExp(exp); }
+  CMathExpressionEvaluator(const CMathExpressionEvaluator &rhs) : m_is_valid(false), m_aKey(rhs.m_aKey) {
+    if (rhs.m_is_valid) { this->SetExp(rhs.m_sExp); }
+  }
+  CMathExpressionEvaluator &operator=(const CMathExpressionEvaluator &rhs) {
+    if (this == &rhs) { return *this; }
+    m_aKey = rhs.m_aKey;
+    this->SetExp(rhs.m_is_valid ? rhs.m_sExp : std::string());
+    return *this;
+  }
+  ~CMathExpressionEvaluator();
+
+  // --------------------
+  bool SetExp(const std::string &key_name);
+  void SetKey(const std::string &key_name, double val);
+  bool IsKeyUsed(const std::string &key_name) {
+    for (unsigned int ikey = 0; ikey < m_aKey.size(); ikey++) {
+      if (m_aKey[ikey].m_Name == key_name) {
+        if (!m_aKey[ikey].m_aiCmd.empty()) return true;
+        return false;
+      }
+    }
+    return false;
+  }
+  double Eval() const;
+ private:
+  bool m_is_valid;
+  std::string m_sExp;
+  std::vector<parse_math_expression::CCmd *> m_apCmd;    // 逆ポーランド記法された演算子や値の列
+  std::vector<parse_math_expression::CKey> m_aKey;    // 文字列の名前と値が，どのIndexのコマンドに格納されているか
+};
+
+}
+
+#ifndef DFM2_STATIC_LIBRARY
+#  include "delfem2/parse_math_expression.cpp"
+#endif
+
+#endif    // DFM2_PARSE_MATH_EXPRESSION_H
-- 
2.43.0


From eea202fcfcd8b2f6b18802b6c82cab114bb78cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 048/196] fix: a sign without operand failed an assertion
 instead of being refused

---
 include/delfem2/parse_math_expression.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index fe61b94..340ec31 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -380,6 +380,7 @@ bool MakeRPN(
       std::cout << "Error!-->Cannot interprit this expression : " << cur_exp << std::endl;
       return false;
     }
+    if (itmp2 == 2 && itmp1 == cur_exp.size()) { return false; }  // sign without operand
     if (itmp0 == 0 && itmp1 == cur_exp.size()) {  // case operand 算術数値(PIみたいなの)
       assert(itmp2 == 0 || itmp2 == 1);
       assert(itmp3 >= -1 && itmp3 <= COperand::GetMaxOprInd());
-- 
2.43.0


From 17c9c31ff8a43595fd0e2744d37ad3ac05574857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 049/196] fix: Split_Parentheses returned the last piece twice
 when the text ends with a delimiter

---
 include/delfem2/str.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index 6a2ccd5..c77af38 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -117,9 +117,6 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Parentheses(
   unsigned int is=0;
   int ilevel = 0;
   for(unsigned int ie=0;ie<str.size();++ie){
-    if( ie == str.size()-1 ){
-      aToken.emplace_back(str.data()+is,str.data()+ie+1 );
-    }
     if( str[ie] == cs ){ ilevel++; }
     if( str[ie] == ce ){ ilevel--; }
     if( str[ie] == delimiter && ilevel == 0 ){
@@ -127,6 +124,9 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Parentheses(
       is = ie+1;
     }
   }
+  if( !str.empty() ){
+    aToken.emplace_back(str.data()+is,str.data()+str.size() );
+  }
   return aToken;
 }
 
-- 
2.43.0


From bbe7763a9e6e74aba26a782be1e9dc03bd654388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 050/196] fix: Split_Quote returned the last piece with its
 delimiter and once more without

---
 include/delfem2/str.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index c77af38..9491e2a 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -139,9 +139,6 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Quote(
   unsigned int is=0;
   bool is_in = false;
   for(unsigned int ie=0;ie<str.size();++ie){
-    if( ie == str.size()-1 ){
-      aToken.emplace_back(str.data()+is,str.data()+ie+1 );
-    }
     if( str[ie] == quote ){ is_in = !is_in; }
     if( str[ie] == delimiter && !is_in ){
       if( str[is] != delimiter ) { // skip the sequence of the delimiter
@@ -150,6 +147,9 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Quote(
       is = ie+1;
     }
   }
+  if( is < str.size() ){
+    aToken.emplace_back(str.data()+is,str.data()+str.size() );
+  }
   return aToken;
 }
 
-- 
2.43.0


From 338d4029bedbc8730da0c1bbe9f835413a4a12e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 051/196] fix: RemoveBeginning removed nothing from a text made
 of the characters to remove

---
 include/delfem2/str.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index 9491e2a..5908169 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -206,7 +206,7 @@ DFM2_INLINE std::string delfem2::RemoveBeginning(
   const size_t n = str.size();
   const size_t ndel = del.size();
   //
-  int istat = 0;
+  size_t istat = n;
   for(unsigned int i=0;i<n;++i){
     bool is_del = false;
     for(unsigned int idel=0;idel<ndel;++idel){
-- 
2.43.0


From a5a1faf87af544905881666af760f40564908b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 052/196] fix: ReadDictionary_Json mistook a comma or colon at
 the start of a value for a separator

---
 include/delfem2/str.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index 5908169..cbb1664 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -284,11 +284,14 @@ delfem2::ReadDictionary_Json(const std::string& strIn)
   int ipos_begin = 1;
   int ipos_middle = -1;
   int ipos_end = -1;
+  bool is_quote = false;
   for(unsigned int i=1;i<n;++i){
-    if( p[i]==':' && p[i-1]=='"' ){
+    if( p[i]=='"' ){ is_quote = !is_quote; }
+    if( is_quote ){ continue; }
+    if( p[i]==':' ){
       ipos_middle = i;
     }
-    if( (p[i]==',' && p[i-1]=='"') || (i==n-1) ){
+    if( p[i]==',' || i==n-1 ){
       ipos_end = i;
       assert(buff[ipos_begin]=='"');
       assert(buff[ipos_middle+1]=='"');
-- 
2.43.0


From da6ea1f77b57de78bb72020fc4661eab3b2ec0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 053/196] fix: attributes with an equal sign in their value
 were dropped

---
 include/delfem2/str.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index cbb1664..ae8d5a1 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -412,10 +412,10 @@ DFM2_INLINE void delfem2::ParseAttributes
   }
    */
   for(const auto & is : aS){
-    std::vector<std::string> aS1 = Split(is, '=');
-    if( aS1.size() != 2 ) continue;
-    std::string s1 = Remove_Quote(aS1[1], '\"');
-    mapAttr.insert( std::make_pair(aS1[0],s1) );
+    const size_t ieq = is.find('=');
+    if( ieq == std::string::npos || ieq == 0 || ieq+1 == is.size() ) continue;
+    std::string s1 = Remove_Quote(is.substr(ieq+1), '\"');
+    mapAttr.insert( std::make_pair(is.substr(0,ieq),s1) );
   }
 }
 
-- 
2.43.0


From 7634f910be22ce9481711ee89ad74ab8b3deebf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 054/196] fix: pathRemoveExtension dropped every dot of the
 path, and the whole name of a file without extension

---
 include/delfem2/file.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/file.cpp b/include/delfem2/file.cpp
index 324496b..28e1f68 100644
--- a/include/delfem2/file.cpp
+++ b/include/delfem2/file.cpp
@@ -61,13 +61,10 @@ DFM2_INLINE bool delfem2::isFileExists(const std::string& fpath)
 
 DFM2_INLINE std::string delfem2::pathRemoveExtension(const std::string& fpath)
 {
-  std::vector<std::string> aToken;
-  file::Split(aToken, fpath, '.');
-  std::string sRes;
-  for(int it=0;it<(int)aToken.size()-1;++it){
-    sRes += aToken[it];
-  }
-  return sRes;
+  const size_t idot = fpath.find_last_of('.');
+  const size_t islash = fpath.find_last_of('/');
+  if( idot == std::string::npos || (islash != std::string::npos && idot < islash) ){ return fpath; }
+  return fpath.substr(0, idot);
 }
 
 DFM2_INLINE std::string delfem2::pathGetExtension(const std::string& fpath)
-- 
2.43.0


From 27e906f7e359412434bd300ac4c891d6cc21af90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 055/196] fix: pathGetExtension returned the whole name of a
 file without extension

---
 include/delfem2/file.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/file.cpp b/include/delfem2/file.cpp
index 28e1f68..5df4aab 100644
--- a/include/delfem2/file.cpp
+++ b/include/delfem2/file.cpp
@@ -69,13 +69,10 @@ DFM2_INLINE std::string delfem2::pathRemoveExtension(const std::string& fpath)
 
 DFM2_INLINE std::string delfem2::pathGetExtension(const std::string& fpath)
 {
-  std::vector<std::string> aToken;
-  file::Split(aToken, fpath, '.');
-  std::string sRes;
-  if( !aToken.empty() ){
-    sRes = aToken[aToken.size()-1];
-  }
-  return sRes;
+  const size_t idot = fpath.find_last_of('.');
+  const size_t islash = fpath.find_last_of('/');
+  if( idot == std::string::npos || (islash != std::string::npos && idot < islash) ){ return std::string(); }
+  return fpath.substr(idot+1);
 }
 
 DFM2_INLINE std::string delfem2::getPathDir(const std::string& fpath)
-- 
2.43.0


From 2c230cec265176afcc638a4615192ae455bc8e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 056/196] fix: getPathDir read out of bounds for a path without
 a directory

---
 include/delfem2/file.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/file.cpp b/include/delfem2/file.cpp
index 5df4aab..93d26b1 100644
--- a/include/delfem2/file.cpp
+++ b/include/delfem2/file.cpp
@@ -78,6 +78,7 @@ DFM2_INLINE std::string delfem2::pathGetExtension(const std::string& fpath)
 DFM2_INLINE std::string delfem2::getPathDir(const std::string& fpath)
 {
   const size_t iloc = fpath.find_last_of('/');
+  if( iloc == std::string::npos ){ return std::string(); }
   std::string sres = std::string(fpath.begin(),fpath.begin()+iloc);
   return sres;
 }
-- 
2.43.0


From 4b73aba3dc83152014256d32ad03f1fa0635fa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 057/196] fix: AABB_CubeGrid started the y and z ranges from
 the x range

---
 include/delfem2/gridcube.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/gridcube.cpp b/include/delfem2/gridcube.cpp
index 044379f..d0f0035 100644
--- a/include/delfem2/gridcube.cpp
+++ b/include/delfem2/gridcube.cpp
@@ -150,8 +150,8 @@ void delfem2::AABB_CubeGrid
     return;
   }
   aabb[0] = aCube[0].ivx;  aabb[1] = aabb[0]+1;
-  aabb[2] = aCube[0].ivy;  aabb[3] = aabb[0]+1;
-  aabb[4] = aCube[0].ivz;  aabb[5] = aabb[0]+1;
+  aabb[2] = aCube[0].ivy;  aabb[3] = aabb[2]+1;
+  aabb[4] = aCube[0].ivz;  aabb[5] = aabb[4]+1;
   
   for(std::size_t ic=1;ic<aCube.size();++ic){
     if( aCube[ic].ivx+0 < aabb[0] ){ aabb[0] = aCube[ic].ivx+0; }
-- 
2.43.0


From f133665d4041f8f7b2f73b4b326f06bd1ff8f95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 058/196] fix: a seed listed twice in VoxelGeodesic kept its
 last instead of its smallest distance

---
 include/delfem2/gridvoxel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/gridvoxel.cpp b/include/delfem2/gridvoxel.cpp
index 9da9dd4..bfe4434 100644
--- a/include/delfem2/gridvoxel.cpp
+++ b/include/delfem2/gridvoxel.cpp
@@ -381,6 +381,7 @@ void delfem2::VoxelGeodesic
   for (const auto &idvox_dist: aIdvoxDist) {
     const unsigned int ivox0 = idvox_dist.first;
     const double dist0 = idvox_dist.second;
+    if (aDist[ivox0] >= 0 && aDist[ivox0] <= dist0) { continue; }
     aNext.push(std::make_pair(dist0, ivox0));
     aDist[ivox0] = dist0;
   }
-- 
2.43.0


From 61888e54b1b1e4ef0590565f6ad927e9e0f53862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 059/196] fix: the voxel traversal failed on axis-aligned
 segments and stopped at ties and after 1000 cells

---
 include/delfem2/gridvoxel.cpp | 51 +++++++++++++++--------------------
 include/delfem2/gridvoxel.h   |  1 -
 2 files changed, 21 insertions(+), 31 deletions(-)

diff --git a/include/delfem2/gridvoxel.cpp b/include/delfem2/gridvoxel.cpp
index bfe4434..af7b781 100644
--- a/include/delfem2/gridvoxel.cpp
+++ b/include/delfem2/gridvoxel.cpp
@@ -7,6 +7,9 @@
 
 #include "delfem2/gridvoxel.h"
 
+#include <cmath>
+#include <cstdlib>
+#include <limits>
 #include <queue>
 
 #include "delfem2/vec3.h"
@@ -421,13 +424,11 @@ int signum(double x) {
   return x > 0.0 ? 1 : x < 0.0 ? -1 : 0;
 }
 
-// Find the smallest positive t such that s+t*ds is an integer.
+// Find the t such that s+t*ds leaves the cell floor(s)
 double intbound(double s, double ds) {
-  if (ds < 0) {
-    return intbound(-s, -ds);
-  } else {
-    return (ceil(s) - s) / ds;
-  }
+  if (ds == 0) { return std::numeric_limits<double>::infinity(); }
+  if (ds < 0) { return (floor(s) - s) / ds; }
+  return (floor(s) + 1 - s) / ds;
 }
 
 }
@@ -436,7 +437,6 @@ double intbound(double s, double ds) {
 /**
  * @details this is the implementation of the following paper
  * Amanatides, John, and Andrew Woo. "A fast voxel traversal algorithm for ray tracing." In Eurographics, vol. 87, no. 3, pp. 3-10. 1987.
- * TODO: zero division might occur when (ps - pe ) is aligned to axis.
  */
 void delfem2::Intersection_VoxelGrid_LinSeg(
     std::vector<unsigned int> &aIndVox,
@@ -468,35 +468,26 @@ void delfem2::Intersection_VoxelGrid_LinSeg(
   const int stepX = dfm2::gridvoxel::signum(dx);
   const int stepY = dfm2::gridvoxel::signum(dy);
   const int stepZ = dfm2::gridvoxel::signum(dz);
-  const double tDeltaX = stepX / dx;
-  assert(tDeltaX > 0);
-  const double tDeltaY = stepY / dy;
-  assert(tDeltaY > 0);
-  const double tDeltaZ = stepZ / dz;
-  assert(tDeltaZ > 0);
-  double tMaxX = dfm2::gridvoxel::intbound(Ps.x, dx);
-  assert(tMaxX > 0);
-  double tMaxY = dfm2::gridvoxel::intbound(Ps.y, dy);
-  assert(tMaxY > 0);
-  double tMaxZ = dfm2::gridvoxel::intbound(Ps.z, dz);
-  assert(tMaxZ > 0);
+  const int step[3] = {stepX, stepY, stepZ};
+  const double tDelta[3] = {stepX / dx, stepY / dy, stepZ / dz}; // not used along an axis without motion
+  double tMax[3] = {
+      dfm2::gridvoxel::intbound(Ps.x, dx),
+      dfm2::gridvoxel::intbound(Ps.y, dy),
+      dfm2::gridvoxel::intbound(Ps.z, dz)};
   aIndVox.clear();
-  for (int itr = 0; itr < 1000; ++itr) {
+  for (;;) {
     if (ic[0] >= 0 && ic[1] >= 0 && ic[2] >= 0 &&
         ic[0] < (int) nx && ic[1] < (int) ny && ic[2] < (int) nz) {
       aIndVox.push_back(ic[2] * ny * nx + ic[1] * nx + ic[0]);
     }
-    if (ic[0] == ie[0] && ic[1] == ie[1] && ic[2] == ie[2]) { break; }
-    if (tMaxX < tMaxY && tMaxX < tMaxZ) {
-      tMaxX = tMaxX + tDeltaX;
-      ic[0] += stepX;
-    } else if (tMaxY < tMaxX && tMaxY < tMaxZ) {
-      tMaxY = tMaxY + tDeltaY;
-      ic[1] += stepY;
-    } else if (tMaxZ < tMaxX && tMaxZ < tMaxY) {
-      tMaxZ = tMaxZ + tDeltaZ;
-      ic[2] += stepZ;
+    int iaxis = -1; // the axis whose cell boundary comes first
+    for (int i = 0; i < 3; ++i) {
+      if (ic[i] == ie[i]) { continue; } // already in the last layer of this axis
+      if (iaxis == -1 || tMax[i] < tMax[iaxis]) { iaxis = i; }
     }
+    if (iaxis == -1) { break; }
+    tMax[iaxis] += tDelta[iaxis];
+    ic[iaxis] += step[iaxis];
   }
   /*
   std::cout << "hoge" << std::endl;
diff --git a/include/delfem2/gridvoxel.h b/include/delfem2/gridvoxel.h
index 9b22b3d..8229709 100644
--- a/include/delfem2/gridvoxel.h
+++ b/include/delfem2/gridvoxel.h
@@ -105,7 +105,6 @@ void VoxelGeodesic(
 /**
  * @details this is the implementation of the following paper
  * Amanatides, John, and Andrew Woo. "A fast voxel traversal algorithm for ray tracing." In Eurographics, vol. 87, no. 3, pp. 3-10. 1987.
- * TODO: zero division might occur when (ps - pe ) is aligned to axis.
  */
 void Intersection_VoxelGrid_LinSeg(
     std::vector<unsigned int> &aIndVox,
-- 
2.43.0


From a1022a8b374e15413c88966d62120b6e951958af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 060/196] fix: the 2D convex hull read out of bounds for
 coincident points and points in one direction from the start

---
 include/delfem2/geo_convhull2.h | 69 +++++++++++++++------------------
 1 file changed, 31 insertions(+), 38 deletions(-)

diff --git a/include/delfem2/geo_convhull2.h b/include/delfem2/geo_convhull2.h
index c2f2511..e70211a 100644
--- a/include/delfem2/geo_convhull2.h
+++ b/include/delfem2/geo_convhull2.h
@@ -29,7 +29,6 @@ void ConvexHull2(
     std::vector<unsigned int> &point_idxs,
     const std::vector<VEC> &points) {
   using SCALAR = typename VEC::Scalar;
-  const SCALAR EPSILON = 1.0e-8;
 
   unsigned int p0_idx;
   { // find the index with minimum y coordinate
@@ -44,48 +43,42 @@ void ConvexHull2(
   }
   assert(p0_idx < points.size());
 
-  std::vector<std::pair<unsigned int, SCALAR> > idxcos;
-  { // compute and sort points by cosine value
-    VEC x_axis = {1, 0};
-    for (unsigned int i = 0; i < points.size(); i++) {
-      if (i == p0_idx) { continue; }
-      VEC dir = points[i] - points[p0_idx];
-      idxcos.emplace_back(i, x_axis.dot(dir) / dir.norm());
-    }
+  std::vector<unsigned int> idxs;  // points sorted by the direction from p0
+  for (unsigned int i = 0; i < points.size(); i++) {
+    const VEC dir = points[i] - points[p0_idx];
+    if (dir.squaredNorm() == 0) { continue; }  // coincides with p0
+    idxs.push_back(i);
   }
-
-  { // sort idxcos
-    auto comp = [&points, &p0_idx, &EPSILON](
-        const std::pair<unsigned int, SCALAR> &a,
-        const std::pair<unsigned int, SCALAR> &b) {
-      if (std::abs(a.second - b.second) > EPSILON) {
-        return a.second > b.second;
-      } else {
-        assert(a.first < points.size() && b.first < points.size() && p0_idx < points.size());
-        const SCALAR dista = (points[a.first] - points[p0_idx]).squaredNorm();
-        const SCALAR distb = (points[b.first] - points[p0_idx]).squaredNorm();
+  auto cross_p0 = [&points, p0_idx](unsigned int a, unsigned int b) -> SCALAR {
+    const VEC da = points[a] - points[p0_idx];
+    const VEC db = points[b] - points[p0_idx];
+    return da[0] * db[1] - da[1] * db[0];
+  };
+  std::sort(
+      idxs.begin(), idxs.end(),
+      [&points, &cross_p0, p0_idx](unsigned int a, unsigned int b) {
+        const SCALAR c = cross_p0(a, b);
+        if (c != 0) { return c > 0; }
+        const SCALAR dista = (points[a] - points[p0_idx]).squaredNorm();
+        const SCALAR distb = (points[b] - points[p0_idx]).squaredNorm();
         return dista > distb;
-      }
-    };
-    std::sort(idxcos.begin(), idxcos.end(), comp);
-  }
-
-  // check for collinear points
-  for (auto itr = ++idxcos.begin(); std::next(itr) != idxcos.end(); itr++) {
-    if (std::abs((*itr).second - (*std::next(itr)).second) < EPSILON) {
-      idxcos.erase(std::next(itr)); // only keep the furthest
-    }
-  }
+      });
+  // only keep the furthest of the points in the same direction
+  idxs.erase(
+      std::unique(
+          idxs.begin(), idxs.end(),
+          [&cross_p0](unsigned int a, unsigned int b) { return cross_p0(a, b) == 0; }),
+      idxs.end());
 
-  idxcos.emplace_back(p0_idx, 0);
+  point_idxs.assign(1, p0_idx);
+  if (idxs.empty()) { return; } // all the points coincide
+  point_idxs.push_back(idxs[0]);
 
-  point_idxs.clear();
-  point_idxs.push_back(p0_idx);
-  point_idxs.push_back(idxcos.begin()->first);
+  idxs.push_back(p0_idx);
   unsigned int stack_top = 1;
-  for (auto itr = ++idxcos.begin(); itr != idxcos.end(); itr++) {
-    unsigned int p3_idx = itr->first;
-    while (true) {
+  for (auto itr = ++idxs.begin(); itr != idxs.end(); itr++) {
+    unsigned int p3_idx = *itr;
+    while (stack_top > 0) {
       unsigned int p1_idx = point_idxs[stack_top - 1];
       unsigned int p2_idx = point_idxs[stack_top];
       const VEC p1p2 = points[p2_idx] - points[p1_idx];
-- 
2.43.0


From 7cbd9886f236ba1466e1fba4e4afb1f199d88a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 061/196] fix: 2D GJK divided by zero or did not return when
 the origin is on the line of its simplex

---
 include/delfem2/geo_gjksat2.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/geo_gjksat2.h b/include/delfem2/geo_gjksat2.h
index 3d7c590..2db8590 100644
--- a/include/delfem2/geo_gjksat2.h
+++ b/include/delfem2/geo_gjksat2.h
@@ -49,6 +49,7 @@ auto FindIntersectingSimplexForGjk2(
   // add first and second points of simplex
   std::vector<VEC> simplex;
   VEC init_dir = vtxsB[0] - vtxsA[0];
+  if (init_dir.squaredNorm() == 0) { init_dir = VEC{1, 0}; }
   simplex.push_back(support(init_dir));
   VEC O = VEC{0, 0};
   VEC d = O - simplex[0];
@@ -56,16 +57,19 @@ auto FindIntersectingSimplexForGjk2(
   VEC AB, AC, AO, ABperp, ACperp; // all temporary variables
   while (true) {
     VEC P = support(d);
-    if (P.dot(d) < 0) {
+    if (P.dot(d) <= 0) { // the origin is not inside
       return std::vector<VEC>();
-    } else {
-      simplex.push_back(P);
     }
+    for (const VEC &v: simplex) {
+      if ((P - v).squaredNorm() == 0) { return std::vector<VEC>(); } // no progress
+    }
+    simplex.push_back(P);
 
     if (simplex.size() == 2) { // line case
       AB = simplex[0] - simplex[1];
       AO = O - simplex[1];
       d = AO - AB.dot(AO) / AB.squaredNorm() * AB; // ABperp
+      if (d.squaredNorm() <= 1.0e-20 * AB.squaredNorm()) { d = VEC{AB[1], -AB[0]}; } // the origin is on the line
     } else if (simplex.size() == 3) { // triangle case
       AB = simplex[1] - simplex[2];
       AC = simplex[0] - simplex[2];
-- 
2.43.0


From 8af6147cb7b11e0b39bb618337c273c287a8de8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 062/196] fix: 3D GJK missed intersections when the origin is
 on a point, line or plane of its simplex

---
 include/delfem2/geo_gjksat3.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/delfem2/geo_gjksat3.h b/include/delfem2/geo_gjksat3.h
index 1574edd..79912be 100644
--- a/include/delfem2/geo_gjksat3.h
+++ b/include/delfem2/geo_gjksat3.h
@@ -47,6 +47,8 @@ auto FindIntersectingSimplexForGjk3(const std::vector<VEC>& vtxsA, const std::ve
 
 	{ // add first point of simplex
 		VEC init_dir = vtxsB[0] - vtxsA[0];
+		if (init_dir.squaredNorm() == 0)
+			init_dir = VEC { 1.0, 0.0, 0.0 };
 		simplex.push_back(support(init_dir));
 	}
 
@@ -55,6 +57,8 @@ auto FindIntersectingSimplexForGjk3(const std::vector<VEC>& vtxsA, const std::ve
 
 	{ // add second point
 		VEC P = support(d);
+		if (P.dot(d) <= 0) // the origin is not inside
+			return std::vector<VEC>();
 		simplex.push_back(P);
 	}
 
@@ -62,7 +66,14 @@ auto FindIntersectingSimplexForGjk3(const std::vector<VEC>& vtxsA, const std::ve
 		VEC AB = simplex[0] - simplex[1];
 		VEC AO = O - simplex[1];
 		d      = AO - AB.dot(AO) / AB.squaredNorm() * AB; // ABperp
+		if (d.squaredNorm() <= 1.0e-20 * AB.squaredNorm()) { // the origin is on the line
+			d = AB.cross(VEC { 1.0, 0.0, 0.0 });
+			if (d.squaredNorm() < 0.1 * AB.squaredNorm())
+				d = AB.cross(VEC { 0.0, 1.0, 0.0 });
+		}
 		VEC P  = support(d);
+		if (P.dot(d) <= 0) // the origin is not inside
+			return std::vector<VEC>();
 		simplex.push_back(P);
 	}
 
-- 
2.43.0


From 9bee58ceb3e16b1a173161d89980dbffea0ce80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 063/196] fix: the 3D separating axis test left out three of
 the nine edge pairs of two faces

---
 include/delfem2/geo_gjksat3.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/geo_gjksat3.h b/include/delfem2/geo_gjksat3.h
index 79912be..4ae5712 100644
--- a/include/delfem2/geo_gjksat3.h
+++ b/include/delfem2/geo_gjksat3.h
@@ -418,14 +418,17 @@ bool IsIntersect_Points3_Points3_Sat(
 			edgeA[1] = vtxsA[faceA[3 * fiA + 2]] - vtxsA[faceA[3 * fiA + 0]];
 			edgeA[2] = vtxsA[faceA[3 * fiA + 2]] - vtxsA[faceA[3 * fiA + 1]];
 
-			for (unsigned int i = 0; i < 6; i++) {
+			for (unsigned int i = 0; i < 9; i++) {
 
-				constexpr unsigned int FaceToEdge[12] = {
+				constexpr unsigned int FaceToEdge[18] = {
 					0, 0,
 					0, 1,
 					0, 2,
+					1, 0,
 					1, 1,
 					1, 2,
+					2, 0,
+					2, 1,
 					2, 2
 				};
 
-- 
2.43.0


From 0a19fab341e31c22527c7c12b95ba04379bb76af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 064/196] fix: 3D GJK could cycle forever between simplices
 when the clouds are apart

---
 include/delfem2/geo_gjksat3.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/geo_gjksat3.h b/include/delfem2/geo_gjksat3.h
index 4ae5712..8535e14 100644
--- a/include/delfem2/geo_gjksat3.h
+++ b/include/delfem2/geo_gjksat3.h
@@ -114,13 +114,17 @@ auto FindIntersectingSimplexForGjk3(const std::vector<VEC>& vtxsA, const std::ve
 		if (ADBperp.dot(AC) > 0.0)
 			ADBperp = -ADBperp;
 
-		if (ABCperp.dot(AO) > 0) {
+		// go beyond the face that is furthest behind the origin
+		const auto dABC = ABCperp.dot(AO) / ABCperp.norm();
+		const auto dACD = ACDperp.dot(AO) / ACDperp.norm();
+		const auto dADB = ADBperp.dot(AO) / ADBperp.norm();
+		if (dABC > 0 && dABC >= dACD && dABC >= dADB) {
 			simplex.erase(simplex.begin()); // remove D
 			d = ABCperp;
-		} else if (ACDperp.dot(AO) > 0) {
+		} else if (dACD > 0 && dACD >= dADB) {
 			simplex.erase(simplex.begin() + 2); // remove B
 			d = ACDperp;
-		} else if (ADBperp.dot(AO) > 0) {
+		} else if (dADB > 0) {
 			simplex.erase(simplex.begin() + 1); // remove C
 			d = ADBperp;
 		} else { // the tetrahedron contains Origin
-- 
2.43.0


From d7aefcb85c5d24ff604f534e2ed8bf979035e99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 065/196] fix: the root of a quadratic polynomial without
 quadratic term had the wrong sign and was not limited to the range

---
 include/delfem2/polynomial_root.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index 38dd232..426379a 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -206,11 +206,10 @@ std::vector<REAL> RootsInRange_QuadraticPolynomial(
   }
   if (a == 0) {
     if (b == 0) {
-      assert(0);
-      return {};
+      return {};  // constant
     }
-    const REAL cand = c / b;
-    if (cand > x0 || cand < x1) { return {cand}; }
+    const REAL cand = -c / b;
+    if (cand >= x0 && cand <= x1) { return {cand}; }
     return {};
   }
   delta = std::sqrt(delta);
-- 
2.43.0


From 25a152c13a377b5bec5b7b71743a8bbbc105f597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 066/196] fix: root isolation lost roots or did not return when
 a bisection point hits a root

---
 include/delfem2/polynomial_root.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index 426379a..547b9ef 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -180,7 +180,14 @@ inline std::vector<std::pair<double, double> > RootInterval_SturmSequence(
     const double x_left = std::get<0>(intvl);
     const double x_right = std::get<1>(intvl);
     if (n_left - n_right > 1) {  // do the bi-section
-      const double x_mid = (x_left + x_right) / 2;
+      double x_mid = (x_left + x_right) / 2;
+      for (int i = 3; i < n + 3 && Eval_Polynomial(x_mid, strum[0], n) == 0.0; ++i) {
+        x_mid = x_left + (x_right - x_left) / i;  // the Sturm number is not valid at a (multiple) root
+      }
+      if (!(x_left < x_mid && x_mid < x_right)) {  // cannot be separated any more
+        res.emplace_back(x_left, x_right);
+        continue;
+      }
       const int n_mid = delfem2::SturmNumber<n>(x_mid, strum);
       if (n_left > n_mid) {  // left half interval
         next.emplace(x_left, x_mid, n_left, n_mid);
-- 
2.43.0


From df4cd05c87b97947069920999d2d640e5c8febca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 067/196] fix: bisection lost a root at a bound or at a
 bisection point of the interval

---
 include/delfem2/polynomial_root.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index 547b9ef..cb97159 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -253,9 +253,12 @@ inline double RootInInterval_Bisection(
   double fx0 = Eval_Polynomial(x0, a, ndegree_plus1);
   double fx1 = Eval_Polynomial(x1, a, ndegree_plus1);
   assert(fx0 * fx1 <= 0);
+  if (fx0 == 0.) { return x0; }
+  if (fx1 == 0.) { return x1; }
   for (int i = 0; i < num_iteration; i++) {
     const double x2 = (x0 + x1) / 2; // bisection method
     const double fx2 = Eval_Polynomial(x2, a, ndegree_plus1);
+    if (fx2 == 0.) { return x2; }
     if (fx1 * fx2 < 0) {
       x0 = x1;
       x1 = x2;
-- 
2.43.0


From 75ae01fd35b3978a8bfe1ff743b251f09db808e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 068/196] fix: RootsOfPolynomial failed an assertion at roots
 without sign change and returned the excluded lower bound

---
 include/delfem2/polynomial_root.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index cb97159..42bd12c 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -289,6 +289,27 @@ std::vector<double> RootsOfPolynomial(
   std::vector<std::pair<double, double>> intvls = RootInterval_SturmSequence<ndegplus1>(0, 1, strum);
   std::vector<double> res;
   for (auto intvl: intvls) {
+    const double fl = Eval_Polynomial(intvl.first, coe, ndegplus1);
+    const double fr = Eval_Polynomial(intvl.second, coe, ndegplus1);
+    if (fr == 0.) {
+      res.push_back(intvl.second);
+      continue;
+    }
+    if (fl == 0. || fl * fr > 0.) {  // root of the neighboring interval or root without sign change
+      double x0 = intvl.first, x1 = intvl.second;
+      const int n0 = SturmNumber<ndegplus1>(x0, strum);
+      for (int i = 0; i < num_bisection; ++i) {
+        const double x2 = (x0 + x1) / 2;
+        if (Eval_Polynomial(x2, coe, ndegplus1) == 0.) {
+          x0 = x1 = x2;
+          break;
+        }
+        if (SturmNumber<ndegplus1>(x2, strum) == n0) { x0 = x2; }
+        else { x1 = x2; }
+      }
+      res.push_back((x0 + x1) / 2);
+      continue;
+    }
     double y0 = RootInInterval_Bisection(
       intvl.first, intvl.second,
       coe, ndegplus1, num_bisection);
-- 
2.43.0


From 3ef734373c69a66fead872c2c32b833a319b7ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 069/196] fix: root isolation also stays away from bisection
 points within rounding of a root

---
 include/delfem2/polynomial_root.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index 42bd12c..b183046 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -5,6 +5,7 @@
 #ifndef POLYNOMIAL_ROOT_H_
 #define POLYNOMIAL_ROOT_H_
 
+#include <cmath>
 #include <stack>
 #include <tuple>
 
@@ -181,8 +182,11 @@ inline std::vector<std::pair<double, double> > RootInterval_SturmSequence(
     const double x_right = std::get<1>(intvl);
     if (n_left - n_right > 1) {  // do the bi-section
       double x_mid = (x_left + x_right) / 2;
-      for (int i = 3; i < n + 3 && Eval_Polynomial(x_mid, strum[0], n) == 0.0; ++i) {
-        x_mid = x_left + (x_right - x_left) / i;  // the Sturm number is not valid at a (multiple) root
+      for (int i = 3; i < n + 3; ++i) {  // the Sturm number is not valid at a (multiple) root
+        double scale = 0.0;
+        for (int j = n - 1; j >= 0; --j) { scale = scale * std::fabs(x_mid) + std::fabs(strum[0][j]); }
+        if (std::fabs(Eval_Polynomial(x_mid, strum[0], n)) > 1.0e-12 * scale) { break; }
+        x_mid = x_left + (x_right - x_left) / i;
       }
       if (!(x_left < x_mid && x_mid < x_right)) {  // cannot be separated any more
         res.emplace_back(x_left, x_right);
-- 
2.43.0


From f4cdd4796b18183bf76000fc6cccc1a3f2cf77f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 070/196] fix: ReadDictionary_Python overflowed its buffers and
 failed an assertion on text that is no dictionary

---
 include/delfem2/filenpy_str.cpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/include/delfem2/filenpy_str.cpp b/include/delfem2/filenpy_str.cpp
index c882ecf..edf7edf 100644
--- a/include/delfem2/filenpy_str.cpp
+++ b/include/delfem2/filenpy_str.cpp
@@ -88,24 +88,13 @@ DFM2_INLINE delfem2::ReadDictionary_Python(
   std::string skey;
   for(unsigned int i=0;i<n;++i){
     if( buff[i] == ':' ){
-      char str[256];
-//      strncpy(str, pbuff+iend,i-iend);
-      for(unsigned int j=0;j<i-iend;++j){ str[j] = pbuff[iend+j]; }
-      str[i-iend] = '\0';
-      //      std::cout << "key:" << str << "#" << std::endl;
-      skey = std::string(str);
-      //      if( buff[i+1] == ' ' ){ i+=1; }
+      skey = std::string(pbuff+iend, pbuff+i);
       icolon = i;
     }
     if( buff[i] == ','){
-      assert( icolon != -1 );
       if( is_parentheses ){ continue; }
-      char str[256];
-//      strncpy(str, pbuff+icolon+1,i-icolon-1);
-      for(unsigned int j=0;j<i-icolon-1;++j){ str[j] = pbuff[icolon+1+j]; }
-      str[i-icolon-1] = '\0';
-      //      std::cout << "val:" << str << "#" << std::endl;
-      std::string svalue(str);
+      if( icolon == -1 ){ return map0; } // not a dictionary
+      std::string svalue(pbuff+icolon+1, pbuff+i);
       map0.insert( std::make_pair(skey,svalue) );
       //      if( buff[i+1] == ' ' ){ i+=1; }
       iend = i+1;
-- 
2.43.0


From 54402ae26ac6f2bd3629d9123f1cee73a3609d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 071/196] fix: loading a numpy file ignored bad headers,
 overflowed its buffer and read other element types as garbage

---
 include/delfem2/filenpy_str.cpp | 99 +++++++++++++++------------------
 1 file changed, 45 insertions(+), 54 deletions(-)

diff --git a/include/delfem2/filenpy_str.cpp b/include/delfem2/filenpy_str.cpp
index edf7edf..ac3349a 100644
--- a/include/delfem2/filenpy_str.cpp
+++ b/include/delfem2/filenpy_str.cpp
@@ -28,10 +28,11 @@ struct NPY
   unsigned short header_len = 0; // 2 bytes
 };
 
-DFM2_INLINE bool LoadNumpy(
-    int& ndim0,
-    int& ndim1,
-    std::ifstream& fp)
+// read the dictionary in the header and check if the data in C order have the given size of floating point numbers
+DFM2_INLINE bool LoadNumpy_Header(
+    std::map<std::string, std::string>& map0,
+    std::ifstream& fp,
+    size_t size_real)
 {
   NPY npy;
 //  size_t n0 = fread(&npy, sizeof(npy), 1, fp);
@@ -44,15 +45,42 @@ DFM2_INLINE bool LoadNumpy(
     if( memcmp(npy.magic_string, sMagic, 6 ) != 0 ){ return false; }
   }
 
+  std::string buff(npy.header_len, ' ');
+  fp.read(&buff[0],npy.header_len);
+  if( fp.fail() ){ return false; }
+  map0 = ReadDictionary_Python(buff);
+  if( map0["'descr'"] != "'<f" + std::to_string(size_real) + "'" ){ return false; }
+  return map0["'fortran_order'"] == "False";
+}
+
+// read the data if the file has enough of them
+template <typename REAL>
+bool LoadNumpy_Data(
+    std::vector<REAL>& aData,
+    std::ifstream& fp,
+    size_t size)
+{
+  const std::streamoff pos = fp.tellg();
+  fp.seekg(0, std::ios::end);
+  const std::streamoff end = fp.tellg();
+  fp.seekg(pos);
+  if( fp.fail() || size > size_t(end-pos)/sizeof(REAL) ){ return false; }
+  aData.resize(size);
+  fp.read( (char*)aData.data(), sizeof(REAL)*size );
+  return !fp.fail();
+}
+
+DFM2_INLINE bool LoadNumpy(
+    int& ndim0,
+    int& ndim1,
+    std::ifstream& fp,
+    size_t size_real)
+{
   ndim0 = 0;
   ndim1 = 0;
   { // format
-    char buff[256];
-//    size_t n1 = fread(buff, 1, npy.header_len, fp);
-//    if( n1 != npy.header_len ){ return false; }
-    fp.read(buff,npy.header_len);
-    if( fp.fail() ){ return false; }
-    std::map<std::string, std::string> map0 = ReadDictionary_Python(std::string(buff));
+    std::map<std::string, std::string> map0;
+    if( !LoadNumpy_Header(map0, fp, size_real) ){ return false; }
     std::string str_shape = map0["'shape'"];
     str_shape = Get_Parentheses(str_shape,"()");
     std::vector<std::string> aToken = Split(str_shape,',');
@@ -60,10 +88,9 @@ DFM2_INLINE bool LoadNumpy(
     ndim0 = myStoi(aToken[0]);
     ndim1 = myStoi(aToken[1]);
   }
-  return true;
+  return ndim0 >= 0 && ndim1 >= 0;
 }
 
-
 }
 }
 
@@ -122,13 +149,8 @@ DFM2_INLINE bool delfem2::LoadNumpy_2Dim(
 //  FILE* fp = fopen(path.c_str(),"rb");
   std::ifstream fin(path,std::ios::in | std::ios::binary);
   if( fin.fail() ) { return false; }
-  funcs::LoadNumpy(ndim0, ndim1, fin);
-  int size = ndim0*ndim1;
-  aData.resize(size);
-//  size_t n0 = fread(&aData[0], sizeof(float), size, fp);
-//  return (int) n0 == size;
-  fin.read( (char*)&aData[0], sizeof(REAL)*size );
-  return !fin.fail();
+  if( !funcs::LoadNumpy(ndim0, ndim1, fin, sizeof(REAL)) ){ return false; }
+  return funcs::LoadNumpy_Data(aData, fin, size_t(ndim0)*size_t(ndim1));
 }
 #ifdef DFM2_STATIC_LIBRARY
 template bool delfem2::LoadNumpy_2Dim(
@@ -150,47 +172,16 @@ DFM2_INLINE bool delfem2::LoadNumpy_1DimF(
   std::ifstream fin(path,std::ios::in | std::ios::binary);
   if( fin.fail() ) { return false; }
   
-  funcs::NPY npy;
-//  size_t n0 = fread(&npy, sizeof(npy), 1, fp);
-//  if( n0 != 1 ){ return false; }
-  fin.read((char*)&npy,sizeof(npy));
-  if( fin.fail() ){ return false; }
-  
-  { // check magic string
-    unsigned char sMagic[7] = {0x93,'N','U','M','P','Y'};
-    if( memcmp(npy.magic_string, sMagic, 6 ) != 0 ){ return false; }
-  }
-  
-  //    std::cout << npy.major_version << std::endl;
-  //    std::cout << npy.minor_version << std::endl;
-  //    std::cout << npy.header_len << std::endl;
-  
   ndim0 = 0;
   { // format
-    char buff[256];
-//    size_t n1 = fread(buff, 1, npy.header_len, fp);
-//    if( n1 != npy.header_len ){ return false; }
-    fin.read(buff,npy.header_len);
-    if(fin.fail()){ return false; }
-    //    std::cout << buff << "###" << strlen(buff) << std::endl;
-    std::map<std::string, std::string> map0 = ReadDictionary_Python(std::string(buff));
-    //    for(std::map<std::string, std::string>::iterator itr=map0.begin();itr!=map0.end();++itr){
-    //      std::cout << itr->first << " --> " << itr->second << std::endl;
-    //    }
+    std::map<std::string, std::string> map0;
+    if( !funcs::LoadNumpy_Header(map0, fin, sizeof(float)) ){ return false; }
     std::string str_shape = map0["'shape'"];
     str_shape = Get_Parentheses(str_shape,"()");
     std::vector<std::string> aToken = Split(str_shape,',');
     if( aToken.size() != 1 ){ return false; }
     ndim0 = myStoi(aToken[0]);
   }
-  //    std::cout << ndim0 << " " << ndim1 << std::endl;
-  
-  //////
-  unsigned int size = ndim0;
-  aData.resize(size);
-  //  double* aRes = (double*)malloc( sizeof(double)*size );
-//  size_t n2 = fread(&aData[0], sizeof(float), size, fp);
-//  return n2 == size;
-  fin.read( (char*)&aData[0], sizeof(float)*size );
-  return !fin.fail();
+  if( ndim0 < 0 ){ return false; }
+  return funcs::LoadNumpy_Data(aData, fin, ndim0);
 }
-- 
2.43.0


From 5349205592ab24c0d7315300a957a28e9667bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 072/196] fix: the binary PPM reader shifted the image of a
 file without comment and accepted files of another type or with missing data

---
 include/delfem2/img_ioppm.cpp | 43 ++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/include/delfem2/img_ioppm.cpp b/include/delfem2/img_ioppm.cpp
index fb1838d..cc44bd2 100644
--- a/include/delfem2/img_ioppm.cpp
+++ b/include/delfem2/img_ioppm.cpp
@@ -29,37 +29,38 @@ bool delfem2::LoadImage_PPMBinary(
   }
   
   std::string header;
+  file >> header;
+  if (header!="P6") { return false; } // binary format
   {
-    char buff[256];
-    file.getline(buff, 256);
-    header = std::string(buff);
-  }
-  if (header=="P6") { // binary format
-    {
-      int max;
-      char buff[256];
-      file.getline(buff,256);
-      if (buff[0]=='#'){
-        file>>width>>height>>max;
-      }
-      else{
-        std::stringstream ss(buff);
-        ss>>width>>height>>max;
+    int dims[3]; // width, height, maximum value
+    for (int &dim : dims) {
+      while ((file >> std::ws) && file.peek() == '#') { // comment
+        std::string comment;
+        std::getline(file, comment);
       }
-      //      std::cout<<header<<" "<<width<<" "<<height<<" "<<max<<std::endl;
+      if (!(file >> dim) || dim < 0) { return false; }
     }
+    file.get(); // single white space before the data
+    width = dims[0];
+    height = dims[1];
     // max is supporse to be 255
-    const int size = width*height*3+1;
+    const std::streamoff pos = file.tellg();
+    file.seekg(0, std::ios::end);
+    const std::streamoff end = file.tellg();
+    file.seekg(pos);
+    const size_t size = size_t(width)*size_t(height)*3;
+    if (file.fail() || size_t(width)*size_t(height) > size_t(end-pos)/3) { return false; } // not enough data
     std::vector<unsigned char> data(size);
-    file.read(reinterpret_cast<char*>(&(data[0])), size);
+    file.read(reinterpret_cast<char*>(data.data()), std::streamsize(size));
+    if (file.fail()) { return false; }
     image.resize(3*height*width+256);
     for (int row = 0; row < height; ++row) {
       for (int col = 0; col < width; ++col) {
         int dest_index = 3*((height-row-1) * width+col);
         int src_index = (row * width+col)*3;
-        image[dest_index+0] = data[src_index+1];
-        image[dest_index+1] = data[src_index+2];
-        image[dest_index+2] = data[src_index+3];
+        image[dest_index+0] = data[src_index+0];
+        image[dest_index+1] = data[src_index+1];
+        image[dest_index+2] = data[src_index+2];
       }
     }
   }
-- 
2.43.0


From d7acfc83b93ef95f52f4431a07fbd62b02dd38e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 073/196] fix: the ASCII PPM reader accepted files with missing
 values

---
 include/delfem2/img_ioppm.cpp | 15 ++++++++++-----
 include/delfem2/img_ioppm.h   |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/img_ioppm.cpp b/include/delfem2/img_ioppm.cpp
index cc44bd2..7bce017 100644
--- a/include/delfem2/img_ioppm.cpp
+++ b/include/delfem2/img_ioppm.cpp
@@ -94,21 +94,26 @@ int delfem2::LoadImage_PPMAscii(
     if( !fin.getline(buff, buffSize) ){ return 2; }
     {
       std::stringstream ss(buff);
-      ss >> width >> height;
+      if( !(ss >> width >> height) ){ return 2; }
     }
     if( !fin.getline(buff, buffSize) ){ return 2; }
     {
       std::stringstream ss(buff);
-      ss >> vmax;
+      if( !(ss >> vmax) ){ return 2; }
     }
   }
+  { // every value takes at least two letters
+    const std::streamoff pos = fin.tellg();
+    fin.seekg(0, std::ios::end);
+    const std::streamoff end = fin.tellg();
+    fin.seekg(pos);
+    if( fin.fail() || (width != 0 && height > (size_t(end-pos)+1)/2/width/3) ){ return 3; }
+  }
   image.resize(width*height*3);
-  const auto buffSize = (unsigned int)(4*3*width*1.2);
-  std::vector<char> buff(buffSize, 0);
   unsigned int icnt = 0;
   while (icnt<width*height*3) {
     int ival;
-    fin >> ival;
+    if( !(fin >> ival) ){ return 3; }
     unsigned int ih = icnt/(width*3);
     unsigned int iw = (icnt-ih*width*3)/3;
     unsigned int ich = icnt - ih*width*3 - iw*3;
diff --git a/include/delfem2/img_ioppm.h b/include/delfem2/img_ioppm.h
index f56e2c0..152cd2b 100644
--- a/include/delfem2/img_ioppm.h
+++ b/include/delfem2/img_ioppm.h
@@ -26,7 +26,7 @@ DFM2_INLINE bool LoadImage_PPMBinary(
  * @param[out] height
  * @param[out] image binary image data. top left corner is the origin. width first
  * @param[in] fname file path
- * @return 0: success, 1: cannot open 2: format different
+ * @return 0: success, 1: cannot open 2: format different 3: data missing
  */
 DFM2_INLINE int LoadImage_PPMAscii(
     unsigned int &width, unsigned int &height,
-- 
2.43.0


From e7597d7e608d002b9777014271817119534b023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 074/196] fix: Read_MeshTri3D_Nas lost a last line without line
 end, did not return on long lines and crashed on a file without points

---
 include/delfem2/msh_io_misc.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/msh_io_misc.cpp b/include/delfem2/msh_io_misc.cpp
index 5014ea9..2e1a5a6 100644
--- a/include/delfem2/msh_io_misc.cpp
+++ b/include/delfem2/msh_io_misc.cpp
@@ -16,6 +16,8 @@
 #include <string>
 #include <cstring>
 #include <climits>
+#include <limits>
+#include <algorithm>
 
 namespace delfem2::msh_iomisc {
 
@@ -664,8 +666,13 @@ DFM2_INLINE void delfem2::Read_MeshTri3D_Nas(
   std::vector<char> buff(nbuff);
   char buff1[16], buff2[16], buff3[16], buff4[16], buff5[16];
   while (true) {
+    std::fill(buff.begin(), buff.end(), '\0');
     fin.getline(buff.data(), nbuff);
-    if (fin.eof()) { break; } // eof
+    if (fin.bad() || fin.gcount() == 0) { break; } // eof
+    if (fin.fail()) { // the rest of a long line is not used
+      fin.clear();
+      fin.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+    }
     if (buff[0] == 'G' && buff[1] == 'R' && buff[2] == 'I' && buff[3] == 'D') {
       for (int i = 0; i < 8; ++i) { buff1[i] = buff[i + 8]; }
       buff1[8] = '\0';
@@ -705,6 +712,7 @@ DFM2_INLINE void delfem2::Read_MeshTri3D_Nas(
       continue;
     }
   }
+  if (map01.empty()) { return; }
   int np1 = map01[0];
   for (int ip1 : map01) {
     np1 = (ip1 > np1) ? ip1 : np1;
-- 
2.43.0


From 04971435e18c6e98a26fe3f38af91a1a660c0b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 075/196] fix: OBJ readers stopped silently at the first line
 longer than 255 letters

---
 include/delfem2/msh_io_obj.cpp | 36 +++++++++++++---------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/include/delfem2/msh_io_obj.cpp b/include/delfem2/msh_io_obj.cpp
index f387f97..6ad338f 100644
--- a/include/delfem2/msh_io_obj.cpp
+++ b/include/delfem2/msh_io_obj.cpp
@@ -266,9 +266,8 @@ DFM2_INLINE void delfem2::Read_Obj(
   tri_vtx.clear();
   vtx_xyz.reserve(256 * 16);
   tri_vtx.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
       char str[256];
@@ -311,9 +310,8 @@ DFM2_INLINE void delfem2::Read_Obj_MeshQuad3(
   quad_vtx.clear();
   vtx_xyz.reserve(256 * 16);
   quad_vtx.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
       char str[256];
@@ -353,9 +351,8 @@ DFM2_INLINE void delfem2::Read_Obj2(
   aTri.clear();
   aXYZ.reserve(256 * 16);
   aTri.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
       char str[256];
@@ -405,9 +402,8 @@ void delfem2::Read_Obj3(
   tri_vtx.clear();
   vtx_xyz.reserve(256 * 16);
   tri_vtx.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
       char str[256];
@@ -508,11 +504,10 @@ DFM2_INLINE bool delfem2::Read_WavefrontObjWithMaterialMixedElem(
   group_elem_index.clear();
   group_elem_index.push_back(0);
   //
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
+  std::string buff;
   fname_mtl.clear();
   std::string current_material_name;
-  while (fin.getline(buff, BUFF_SIZE)) {
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'm') {
       std::stringstream ss(buff);
@@ -575,11 +570,9 @@ DFM2_INLINE bool delfem2::Read_WavefrontObjWithMaterialMixedElem(
         }
       }
       for (const auto &str0: vec_str) {
-        char buff1[256];
-        std::strncpy(buff1, str0.c_str(), str0.size());
-        buff1[str0.size()] = '\0';
+        std::string buff1 = str0;
         int ip0, it0, in0;
-        msh_ioobj::ParseVtxObj_(ip0, it0, in0, buff1);
+        msh_ioobj::ParseVtxObj_(ip0, it0, in0, &buff1[0]);
         elem_vtx_xyz.push_back(ip0);
         elem_vtx_tex.push_back(it0);
         elem_vtx_nrm.push_back(in0);
@@ -627,9 +620,8 @@ void delfem2::Read_WavefrontMaterial(
     return;
   }
   materials.clear();
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == '\n') { continue; }
     std::stringstream ss(buff);
-- 
2.43.0


From b78eec6ef27437f58198a89906782afc17b34367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:50 +0000
Subject: [PATCH 076/196] fix: ReadDictionary_Python failed on text that starts
 with a colon

---
 include/delfem2/filenpy_str.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/filenpy_str.cpp b/include/delfem2/filenpy_str.cpp
index ac3349a..689c5ac 100644
--- a/include/delfem2/filenpy_str.cpp
+++ b/include/delfem2/filenpy_str.cpp
@@ -115,6 +115,7 @@ DFM2_INLINE delfem2::ReadDictionary_Python(
   std::string skey;
   for(unsigned int i=0;i<n;++i){
     if( buff[i] == ':' ){
+      if( int(i) < iend ){ return map0; } // not a dictionary
       skey = std::string(pbuff+iend, pbuff+i);
       icolon = i;
     }
-- 
2.43.0


From 93e4ccc94832e95882b4bcd0b26d6aa13897a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:50 +0000
Subject: [PATCH 077/196] fix: Read_Obj3 dropped polygons with more than four
 corners

---
 include/delfem2/msh_io_obj.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/include/delfem2/msh_io_obj.cpp b/include/delfem2/msh_io_obj.cpp
index 6ad338f..a7317eb 100644
--- a/include/delfem2/msh_io_obj.cpp
+++ b/include/delfem2/msh_io_obj.cpp
@@ -441,19 +441,10 @@ void delfem2::Read_Obj3(
         int i0 = std::stoi(str);
         aI.push_back(i0-1);
       }
-      if (aI.size() == 3) {
+      for (size_t i = 2; i < aI.size(); ++i) {
         tri_vtx.push_back(aI[0]);
-        tri_vtx.push_back(aI[1]);
-        tri_vtx.push_back(aI[2]);
-      }
-      if (aI.size() == 4) {
-        tri_vtx.push_back(aI[0]);
-        tri_vtx.push_back(aI[1]);
-        tri_vtx.push_back(aI[2]);
-        //
-        tri_vtx.push_back(aI[0]);
-        tri_vtx.push_back(aI[2]);
-        tri_vtx.push_back(aI[3]);
+        tri_vtx.push_back(aI[i - 1]);
+        tri_vtx.push_back(aI[i]);
       }
     }
   }
-- 
2.43.0


From e436f7bd2f1f02939aedb9098c36e91fe7e58063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 078/196] fix: slicing a mesh at the height of a vertex used
 two different rules for that vertex

---
 include/delfem2/slice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/slice.cpp b/include/delfem2/slice.cpp
index 11f1188..e06bff9 100644
--- a/include/delfem2/slice.cpp
+++ b/include/delfem2/slice.cpp
@@ -33,7 +33,7 @@ DFM2_INLINE void IndexElement_OverlapLevels_MeshTri3D(
     for(unsigned int ih=0;ih<nH;ih++){
       unsigned int icnt = 0;
       for(double inotri : ah){
-        if( inotri-aH[ih] > 0 ){ icnt++; }
+        if( inotri-aH[ih] >= 0 ){ icnt++; } // same rule as CSegInfo::Initialize
       }
       if( icnt == 1 || icnt == 2 ){
         aCST[ih].push_back(itri);
-- 
2.43.0


From ec33d5a931a6b9f86b806def49741f6f2ffd8bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 079/196] fix: MakeReebGraph missed connections in triangles
 with more than two cross sections

---
 include/delfem2/slice.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/delfem2/slice.h b/include/delfem2/slice.h
index 2ea7d66..f0eb548 100644
--- a/include/delfem2/slice.h
+++ b/include/delfem2/slice.h
@@ -103,9 +103,7 @@ void MakeReebGraph
           aConnectivity[jcs0].insert(ics);
         }
       }
-      else{
-        Tri2HCS[itri0] = ics;
-      }
+      Tri2HCS[itri0] = ics; // the next cross section in this triangle is connected to this one
     }
   }
   for(unsigned int ics=0;ics<nCS;ics++){
-- 
2.43.0


From b7918faeee5ee54c89d4a3ada463be4276675b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 080/196] fix: MakeReebGraph read outside its arrays at the
 boundary of an open mesh

---
 include/delfem2/slice.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/delfem2/slice.h b/include/delfem2/slice.h
index f0eb548..d0255bf 100644
--- a/include/delfem2/slice.h
+++ b/include/delfem2/slice.h
@@ -10,6 +10,7 @@
 #define DFM2_SLICE_H
 
 #include <stdio.h>
+#include <climits>
 #include <set>
 #include <stack>
 #include <vector>
@@ -112,6 +113,7 @@ void MakeReebGraph
       unsigned int itri0 = cs0.IndTri_Seg(iseg);
       for(unsigned int iedtri=0;iedtri<3;iedtri++){
         unsigned int jtri0 = aTriSuTri[itri0*3+iedtri];
+        if( jtri0 == UINT_MAX ){ continue; } // boundary of the mesh
         if( Tri2HCS[jtri0] == -1 ){ continue; }
         unsigned int jhcs = Tri2HCS[jtri0];
         const T& cs1 = aCrossSection[jhcs];
@@ -138,6 +140,7 @@ void MakeReebGraph
       Tri2HCS[jtri0] = -2;
       for(unsigned int jedtri=0;jedtri<3;jedtri++){
         unsigned int ktri0 = aTriSuTri[jtri0*3+jedtri];
+        if( ktri0 == UINT_MAX ){ continue; } // boundary of the mesh
         if(      Tri2HCS[ktri0] == -2 ) continue; // already studied
         else if( Tri2HCS[ktri0] == -1 ){ stackTri.push(ktri0); }
         else{
-- 
2.43.0


From 379ee926406265c2e497453bffb46bac0f7daa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 081/196] fix: DijkstraPoint_MeshTri3D gave the source point a
 distance of a round trip

---
 include/delfem2/dijkstra.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/dijkstra.h b/include/delfem2/dijkstra.h
index 342501a..0499c66 100644
--- a/include/delfem2/dijkstra.h
+++ b/include/delfem2/dijkstra.h
@@ -276,6 +276,7 @@ void DijkstraPoint_MeshTri3D(
   const size_t np = aXYZ.size()/3;
   aOrder.assign(np,UINT_MAX);
   aDist.assign(np,-1.);
+  aDist[ip_ker] = 0.0;
   std::priority_queue<dijkstra::CNode<double>> que;
   unsigned int icnt = 0;
   que.push(dijkstra::CNode<double>(ip_ker, 0.0));
-- 
2.43.0


From 9fa243e7e9ff51a365908304dea783ba74d13355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 082/196] fix: Dijkstra distances failed an assertion on a mesh
 with more than one component

---
 include/delfem2/dijkstra.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/dijkstra.h b/include/delfem2/dijkstra.h
index 0499c66..65f8292 100644
--- a/include/delfem2/dijkstra.h
+++ b/include/delfem2/dijkstra.h
@@ -85,7 +85,7 @@ void DijkstraElem_MeshElemTopo(
       que.push(dijkstra::CNode<unsigned int>(ielm1, idist1)); // candidate of shortest path
     }
   }
-  assert(icnt==nelem);
+  // icnt is less than nelem if there are unreachable elements
 }
 
 void Center_Elem3(
@@ -297,7 +297,7 @@ void DijkstraPoint_MeshTri3D(
       que.push(dijkstra::CNode<double>(ip1,dist1)); // add candidate for fix
     }
   }
-  assert(icnt==np);
+  // icnt is less than np if there are unreachable points
 }
 
 
-- 
2.43.0


From 20146ef209e9d2370ede6fb5f6c872d0c48e6080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 083/196] fix: binary clustering dropped every edge with the
 same score as another edge

---
 include/delfem2/clusterpoints.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/clusterpoints.cpp b/include/delfem2/clusterpoints.cpp
index 17ae3eb..657baea 100644
--- a/include/delfem2/clusterpoints.cpp
+++ b/include/delfem2/clusterpoints.cpp
@@ -80,7 +80,7 @@ DFM2_INLINE void delfem2::BinaryClustering_Points3d(
   const auto np0 = static_cast<unsigned int>(aXYZ0.size()/3);
   assert( aArea0.size() == np0 );
   assert( aNorm0.size() == np0*3 );
-  std::set<clusterpoints::CData> aData;
+  std::multiset<clusterpoints::CData> aData; // edges can have the same score
   for (unsigned int ip0 = 0; ip0 < np0; ++ip0) {
     for (unsigned int ipsup0 = psup_ind0[ip0]; ipsup0 < psup_ind0[ip0 + 1]; ++ipsup0) {
       const unsigned int jp0 = psup0[ipsup0];
@@ -163,7 +163,7 @@ delfem2::BinaryClustering_Points2d(
 {
   for(unsigned int ip=0;ip<np0;++ip){ map01[ip] = UINT_MAX; }
   namespace cp = clusterpoints;
-  std::set<clusterpoints::CData> aData;
+  std::multiset<clusterpoints::CData> aData; // edges can have the same score
   for (unsigned int ip0 = 0; ip0 < np0; ++ip0) {
     for (unsigned int ipsup0 = psup_ind0[ip0]; ipsup0 < psup_ind0[ip0 + 1]; ++ipsup0) {
       const unsigned int jp0 = psup0[ipsup0];
-- 
2.43.0


From 1c05ca43d28db3974b0ac9989280e1ef178c288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 084/196] fix: SparsifyMatrixRow left old weights in the unused
 slots of reused arrays

---
 include/delfem2/rig_geo3.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/rig_geo3.cpp b/include/delfem2/rig_geo3.cpp
index c9cef85..3bc3bcd 100644
--- a/include/delfem2/rig_geo3.cpp
+++ b/include/delfem2/rig_geo3.cpp
@@ -89,8 +89,9 @@ void delfem2::SparsifyMatrixRow(
     }
     if (icnt > nbone_nonzeroweight) { nbone_nonzeroweight = icnt; }
   }
-  aWBone_RigSparse.resize(nbone_nonzeroweight * nrow);
-  aIdBone_RigSparse.resize(nbone_nonzeroweight * nrow);
+  // rows with fewer entries are filled with zero weights
+  aWBone_RigSparse.assign(nbone_nonzeroweight * nrow, 0.0);
+  aIdBone_RigSparse.assign(nbone_nonzeroweight * nrow, 0);
   for (unsigned int ip = 0; ip < nrow; ++ip) {
     unsigned icnt = 0;
     double w_sum = 0.0;
-- 
2.43.0


From 85ca1e5cafd422d103322a9d61910d1069e73dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 085/196] fix: Read_BioVisionHierarchy crashed on a blank line
 in the hierarchy

---
 include/delfem2/rig_bvh.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/rig_bvh.cpp b/include/delfem2/rig_bvh.cpp
index 893f1a5..3377795 100644
--- a/include/delfem2/rig_bvh.cpp
+++ b/include/delfem2/rig_bvh.cpp
@@ -107,11 +107,12 @@ DFM2_INLINE void delfem2::Read_BioVisionHierarchy(
   std::string line;
   std::vector<int> stackIndBone;
   while (std::getline(fin, line)) {
-    if (line[line.size() - 1] == '\n') line.erase(line.size() - 1); // remove the newline code
-    if (line[line.size() - 1] == '\r') line.erase(line.size() - 1); // remove the newline code
+    if (!line.empty() && line[line.size() - 1] == '\n') line.erase(line.size() - 1); // remove the newline code
+    if (!line.empty() && line[line.size() - 1] == '\r') line.erase(line.size() - 1); // remove the newline code
     bvh_header += (line + '\n');
     line = rig_bvh::MyReplace(line, '\t', ' ');
     std::vector<std::string> aToken = rig_bvh::MySplit(line, ' ');
+    if (aToken.empty()) { continue; } // blank line
 //    std::cout << aToken[0] << std::endl;
     if (aToken[0] == "HIERARCHY") {
       assert(bones.empty());
-- 
2.43.0


From b06a14bf9354e8e32cf3d7b69c8920ab73043896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 086/196] fix: the offset of the root joint of a BVH file was
 lost when a pose is set

---
 include/delfem2/rig_bvh.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/rig_bvh.cpp b/include/delfem2/rig_bvh.cpp
index 3377795..6f2859c 100644
--- a/include/delfem2/rig_bvh.cpp
+++ b/include/delfem2/rig_bvh.cpp
@@ -218,9 +218,9 @@ DFM2_INLINE void delfem2::Read_BioVisionHierarchy(
     bone.quatRelativeRot[1] = 0.0;
     bone.quatRelativeRot[2] = 0.0;
     bone.quatRelativeRot[3] = 1.0;
-    bone.transRelative[0] = 0.0;
-    bone.transRelative[1] = 0.0;
-    bone.transRelative[2] = 0.0;
+    bone.transRelative[0] = -bone.invBindMat[3];
+    bone.transRelative[1] = -bone.invBindMat[7];
+    bone.transRelative[2] = -bone.invBindMat[11];
     if (bone.ibone_parent != -1) {
       const CRigBone &bone_p = bones[bone.ibone_parent];
       bone.transRelative[0] = (-bone.invBindMat[3]) - (-bone_p.invBindMat[3]);
-- 
2.43.0


From 650db805aba8dcafc9ff9728f64bd23b9890ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 087/196] fix: Mesh_ArrowOcta made a mesh whose faces point
 inward

---
 include/delfem2/msh_arrow.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/msh_arrow.h b/include/delfem2/msh_arrow.h
index 17ec97f..8a9eece 100644
--- a/include/delfem2/msh_arrow.h
+++ b/include/delfem2/msh_arrow.h
@@ -42,12 +42,12 @@ DFM2_INLINE void Mesh_ArrowOcta(
   }
   for (int idiv = 0; idiv < 4; idiv++) {
     tri_vtx.push_back(i0);
-    tri_vtx.push_back(i0 + 2 + (1 + idiv) % 4);
     tri_vtx.push_back(i0 + 2 + (0 + idiv) % 4);
+    tri_vtx.push_back(i0 + 2 + (1 + idiv) % 4);
     //
     tri_vtx.push_back(i0 + 1);
-    tri_vtx.push_back(i0 + 2 + (0 + idiv) % 4);
     tri_vtx.push_back(i0 + 2 + (1 + idiv) % 4);
+    tri_vtx.push_back(i0 + 2 + (0 + idiv) % 4);
   }
 }
 
-- 
2.43.0


From 3dca528239d7a1a6156cafd9a905268bbf292eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 088/196] fix: GetCenterWidthGroup read the wrong corners of
 elements that do not have three nodes

---
 include/delfem2/msh_boundingbox.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_boundingbox.cpp b/include/delfem2/msh_boundingbox.cpp
index 5bf6096..8b51501 100644
--- a/include/delfem2/msh_boundingbox.cpp
+++ b/include/delfem2/msh_boundingbox.cpp
@@ -448,7 +448,7 @@ void delfem2::GetCenterWidthGroup(
   for (unsigned int ielem = 0; ielem < nelem; ielem++) {
     if (elm_groupidx[ielem] != igroup) { continue; }
     for (unsigned int inotri = 0; inotri < nnoel; inotri++) {
-      const unsigned int ip = elm_vtx[ielem * 3 + inotri];
+      const unsigned int ip = elm_vtx[ielem * nnoel + inotri];
       if (is_ini) {
         x_min = x_max = vtx_xyz[ip * 3 + 0];
         y_min = y_max = vtx_xyz[ip * 3 + 1];
-- 
2.43.0


From 9f9c916436288bb6dd887d2c4811393934b0e3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 089/196] fix: TangentVector_Points3 multiplied by the length
 instead of normalizing

---
 include/delfem2/msh_affine_transformation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_affine_transformation.cpp b/include/delfem2/msh_affine_transformation.cpp
index c2a8ec7..3a36abf 100644
--- a/include/delfem2/msh_affine_transformation.cpp
+++ b/include/delfem2/msh_affine_transformation.cpp
@@ -372,7 +372,7 @@ void delfem2::TangentVector_Points3(
         o0[0] - on * n[0],
         o0[1] - on * n[1],
         o0[2] - on * n[2]};
-    const double leninv = points::Length3(o1);
+    const double leninv = 1.0 / points::Length3(o1);
     aOdir[ip * 3 + 0] = o1[0] * leninv;
     aOdir[ip * 3 + 1] = o1[1] * leninv;
     aOdir[ip * 3 + 2] = o1[2] * leninv;
-- 
2.43.0


From 45fd01dfce685b5064a85a1e5f42a74530f2f310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 090/196] fix: CG_Tri rounded one third to six digits

---
 include/delfem2/msh_center_of_gravity.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/msh_center_of_gravity.cpp b/include/delfem2/msh_center_of_gravity.cpp
index c1b40e5..99a9c08 100644
--- a/include/delfem2/msh_center_of_gravity.cpp
+++ b/include/delfem2/msh_center_of_gravity.cpp
@@ -427,9 +427,9 @@ void delfem2::CG_Tri(
   const double q2[3] = {aXYZ[i2 * 3 + 0], aXYZ[i2 * 3 + 1], aXYZ[i2 * 3 + 2]};
   const double q3[3] = {aXYZ[i3 * 3 + 0], aXYZ[i3 * 3 + 1], aXYZ[i3 * 3 + 2]};
 //  double a = TriArea3D(q1, q2, q3);
-  cgx = (q1[0] + q2[0] + q3[0]) * 0.333333;
-  cgy = (q1[1] + q2[1] + q3[1]) * 0.333333;
-  cgz = (q1[2] + q2[2] + q3[2]) * 0.333333;
+  cgx = (q1[0] + q2[0] + q3[0]) / 3;
+  cgy = (q1[1] + q2[1] + q3[1]) / 3;
+  cgz = (q1[2] + q2[2] + q3[2]) / 3;
 }
 
 // -------------------------------
-- 
2.43.0


From 28609d1e614f9443c3b2dc15abbe9a93b7f90402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 091/196] fix: SolidAngleTri3D took the wrong branch for cones
 wider than a hemisphere

---
 include/delfem2/mshmisc.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/delfem2/mshmisc.cpp b/include/delfem2/mshmisc.cpp
index 100c30a..bab2282 100644
--- a/include/delfem2/mshmisc.cpp
+++ b/include/delfem2/mshmisc.cpp
@@ -517,8 +517,7 @@ DFM2_INLINE double delfem2::SolidAngleTri3D(
       + (mshmisc::Dot3(v1, v2)) * l3
       + (mshmisc::Dot3(v2, v3)) * l1
       + (mshmisc::Dot3(v3, v1)) * l2;
-  double tho = den / num;
-  double v = atan(tho);
+  double v = atan2(den, num);
   if (v < 0) { v += 2 * M_PI; }
   v *= 2;
   return v;
-- 
2.43.0


From 90c7b9091bfa221c4d9bff7ffa8040c321ed0eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 092/196] fix: LaplacianSmoothing turned points without
 elements into NaN

---
 include/delfem2/mshmisc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/mshmisc.cpp b/include/delfem2/mshmisc.cpp
index bab2282..be319f0 100644
--- a/include/delfem2/mshmisc.cpp
+++ b/include/delfem2/mshmisc.cpp
@@ -379,6 +379,7 @@ void delfem2::LaplacianSmoothing(
     const std::vector<int> &elsup_ind,
     const std::vector<int> &elsup) {
   for (std::size_t ip = 0; ip < vtx_xyz.size() / 3; ++ip) {
+    if (elsup_ind[ip] == elsup_ind[ip + 1]) { continue; }  // no element around this point
     double sum_area = 0.0;
     double pcnt[3] = {0, 0, 0};
     for (int ielsup = elsup_ind[ip]; ielsup < elsup_ind[ip + 1]; ++ielsup) {
-- 
2.43.0


From 244fd686beb94671a713cb4efd420bef2670716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 093/196] fix: CBox::Projection returned the inward normal

---
 include/delfem2/msh_primitive.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/msh_primitive.h b/include/delfem2/msh_primitive.h
index 596dc82..daff918 100644
--- a/include/delfem2/msh_primitive.h
+++ b/include/delfem2/msh_primitive.h
@@ -273,9 +273,9 @@ class CBox : public CSDF3 {
       z3 = z2;
     }
     {
-      n[0] = x - x3;
-      n[1] = y - y3;
-      n[2] = z - z3;
+      n[0] = x3 - x;
+      n[1] = y3 - y;
+      n[2] = z3 - z;
       double tmp = 1.0 / sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
       n[0] *= tmp;
       n[1] *= tmp;
-- 
2.43.0


From 4c966957ee87ebf5f5736e5ad02ea4baaeb6e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 094/196] fix: CTorus::Projection ignored the height and left
 the normal unset on the axis

---
 include/delfem2/msh_primitive.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/msh_primitive.cpp b/include/delfem2/msh_primitive.cpp
index 7e33eda..fe8c53e 100644
--- a/include/delfem2/msh_primitive.cpp
+++ b/include/delfem2/msh_primitive.cpp
@@ -908,9 +908,9 @@ double delfem2::CTorus<REAL>::Projection(
   dir[2] -= t;
   const double len = sqrt(dir[0] * dir[0] + dir[1] * dir[1] + dir[2] * dir[2]);
   if (len < 1.0e-20) {    // vertical to the center of torus
-    return radius_tube_ - radius_;
+    dir[0] = 1;  // every direction is equally near
   }
-  const double invlen = 1.0 / len;
+  const double invlen = (len < 1.0e-20) ? 1.0 : 1.0 / len;
   dir[0] *= invlen;
   dir[1] *= invlen;
   dir[2] *= invlen;
-- 
2.43.0


From 1679595bad88e1ce57e037831a69b672516ee0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 095/196] fix: CCylinder::IntersectionPoint intersected a
 sphere

---
 include/delfem2/msh_primitive.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/msh_primitive.cpp b/include/delfem2/msh_primitive.cpp
index fe8c53e..27ab0c9 100644
--- a/include/delfem2/msh_primitive.cpp
+++ b/include/delfem2/msh_primitive.cpp
@@ -880,12 +880,22 @@ template<typename REAL>
 bool delfem2::CCylinder<REAL>::IntersectionPoint(
     double p[3],
     const double o[3], const double d[3]) const {
-  const double q[3] = {o[0] - cent_[0], o[1] - cent_[1], o[2] - cent_[2]};
-  const double a = d[0] * d[0] + d[1] * d[1] + d[2] * d[2];
-  const double b = q[0] * d[0] + q[1] * d[1] + q[2] * d[2];
+  double q[3] = {o[0] - cent_[0], o[1] - cent_[1], o[2] - cent_[2]};
+  double e[3] = {d[0], d[1], d[2]};
+  {  // remove the components along the axis
+    const double dd = dir_[0] * dir_[0] + dir_[1] * dir_[1] + dir_[2] * dir_[2];
+    const double tq = (q[0] * dir_[0] + q[1] * dir_[1] + q[2] * dir_[2]) / dd;
+    const double te = (e[0] * dir_[0] + e[1] * dir_[1] + e[2] * dir_[2]) / dd;
+    for (int i = 0; i < 3; ++i) {
+      q[i] -= tq * dir_[i];
+      e[i] -= te * dir_[i];
+    }
+  }
+  const double a = e[0] * e[0] + e[1] * e[1] + e[2] * e[2];
+  const double b = q[0] * e[0] + q[1] * e[1] + q[2] * e[2];
   const double c = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] - radius_ * radius_;
   const double det = b * b - a * c;
-  if (det < 0) return false;
+  if (a <= 0 || det < 0) return false;
   const double t = (-b + sqrt(det)) / a;
   p[0] = o[0] + t * d[0];
   p[1] = o[1] + t * d[1];
-- 
2.43.0


From 6f0807c6dbb9610eaa510d912f43b74a859d3a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 096/196] fix: Vec3_SpinVectorFromMat3 returned the second
 component twice

---
 include/delfem2/mat3_funcs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/mat3_funcs.cpp b/include/delfem2/mat3_funcs.cpp
index 73f9346..3b33d98 100644
--- a/include/delfem2/mat3_funcs.cpp
+++ b/include/delfem2/mat3_funcs.cpp
@@ -710,7 +710,7 @@ std::array<T, 3> delfem2::Vec3_SpinVectorFromMat3(
   return {
       (m[7] - m[5]) * half,
       (m[2] - m[6]) * half,
-      (m[2] - m[6]) * half};
+      (m[3] - m[1]) * half};
 }
 
 template<typename MAT, typename T>
-- 
2.43.0


From 04a6cd026b211caebdc487eea982e827c9b7e27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 097/196] fix: the axis-angle vector of a half turn was NaN or
 zero

---
 include/delfem2/mat3_funcs.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/delfem2/mat3_funcs.cpp b/include/delfem2/mat3_funcs.cpp
index 3b33d98..fd1790a 100644
--- a/include/delfem2/mat3_funcs.cpp
+++ b/include/delfem2/mat3_funcs.cpp
@@ -726,6 +726,12 @@ std::array<T, 3> delfem2::Vec3_AxisAngleVecFromMat3(
   double theta = std::acos(act);
   if (myIsNAN_Matrix3(theta)) { return a; }
   if (fabs(theta) < 1.0e-5) { return {a[0]/2, a[1]/2, a[2]/2}; }
+  if (act < -0.5) {  // the spin component vanishes at the half turn
+    const T m_[9] = {m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]};
+    T v[3];
+    AxisAngleVectorCartesian_Mat3(v, m_);
+    return {v[0], v[1], v[2]};
+  }
   T mag = 0.5 * theta / sin(theta);
   return {a[0]*mag, a[1]*mag, a[2]*mag };
 }
@@ -742,6 +748,16 @@ DFM2_INLINE void delfem2::AxisAngleVectorCartesian_Mat3(
     v[2] = (m[3 * 1 + 0] - m[3 * 0 + 1]) / 2;
     return;
   }
+  if (cos_t0 < static_cast<T>(-0.5)) {  // the spin component vanishes at the half turn
+    T q[4];
+    Quat_Mat3(q, m);
+    const T s = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]);
+    const T c = (q[3] < 0) ? -2 * std::atan2(s, -q[3]) / s : 2 * std::atan2(s, q[3]) / s;
+    v[0] = c * q[0];
+    v[1] = c * q[1];
+    v[2] = c * q[2];
+    return;
+  }
   const T t0 = std::acos(cos_t0);
   const T c0 = t0 / (2 * std::sin(t0));
   v[0] = c0 * (m[3 * 2 + 1] - m[3 * 1 + 2]);
-- 
2.43.0


From e1b8368de570b5e59e2e8dab13bcf509e6ad5961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 098/196] fix: Mat3_MinimumRotation of opposite vectors did not
 map one to the other

---
 include/delfem2/mat3_funcs.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/mat3_funcs.cpp b/include/delfem2/mat3_funcs.cpp
index fd1790a..d41fafe 100644
--- a/include/delfem2/mat3_funcs.cpp
+++ b/include/delfem2/mat3_funcs.cpp
@@ -844,9 +844,15 @@ std::array<REAL, 9> delfem2::Mat3_MinimumRotation(
       const VEC eqx = epx - eq.dot(epx) * eq; // vector orthogonal to eq
       const VEC eqy = eq.cross(eqx);
       return {
-          eqx.dot(epx), eqy.dot(epx), eq.dot(epx),
-          eqx.dot(epy), eqy.dot(epy), eq.dot(epy),
-          eqx.dot(ep), eqy.dot(ep), eq.dot(ep)};
+          eqx[0] * epx[0] + eqy[0] * epy[0] + eq[0] * ep[0],
+          eqx[0] * epx[1] + eqy[0] * epy[1] + eq[0] * ep[1],
+          eqx[0] * epx[2] + eqy[0] * epy[2] + eq[0] * ep[2],
+          eqx[1] * epx[0] + eqy[1] * epy[0] + eq[1] * ep[0],
+          eqx[1] * epx[1] + eqy[1] * epy[1] + eq[1] * ep[1],
+          eqx[1] * epx[2] + eqy[1] * epy[2] + eq[1] * ep[2],
+          eqx[2] * epx[0] + eqy[2] * epy[0] + eq[2] * ep[0],
+          eqx[2] * epx[1] + eqy[2] * epy[1] + eq[2] * ep[1],
+          eqx[2] * epx[2] + eqy[2] * epy[2] + eq[2] * ep[2]};
       /*
       const CMat3<REAL> Rp = Mat3_3Bases(epx, epy, ep);
       const CMat3<REAL> Rq = Mat3_3Bases(eqx, eqy, eq);
-- 
2.43.0


From 554b6a7c4da3f1c1729ab7935894869a5384f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 099/196] fix: CMat3::MatMatTrans did not compile

---
 include/delfem2/mat3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/mat3.cpp b/include/delfem2/mat3.cpp
index 8926237..23d673d 100644
--- a/include/delfem2/mat3.cpp
+++ b/include/delfem2/mat3.cpp
@@ -185,7 +185,7 @@ delfem2::CMat3<T> delfem2::CMat3<T>::MatMatTrans(const CMat3<T> &mat0) const {
   CMat3 m;
   for (unsigned int i = 0; i < 3; i++) {
     for (unsigned int j = 0; j < 3; j++) {
-      m.mat[i * 3 + j] =
+      m.p_[i * 3 + j] =
           p_[0 * 3 + i] * mat0.p_[0 * 3 + j] +
           p_[1 * 3 + i] * mat0.p_[1 * 3 + j] +
           p_[2 * 3 + i] * mat0.p_[2 * 3 + j];
-- 
2.43.0


From 14b09642a2efd4660ea56692e7a89b2f62d686b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 100/196] fix: CMat3::SecondInvarint did not compile

---
 include/delfem2/mat3.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/mat3.h b/include/delfem2/mat3.h
index 3ad583e..2c0776b 100644
--- a/include/delfem2/mat3.h
+++ b/include/delfem2/mat3.h
@@ -235,8 +235,8 @@ class CMat3 {
   }
   [[nodiscard]] double SecondInvarint() const {
     const CMat3 &m2 = (*this) * (*this);
-    const double tr = this->Trace();
-    return 0.5 * (tr * tr - m2.Trace());
+    const double tr = this->trace();
+    return 0.5 * (tr * tr - m2.trace());
   }
   void Print() const {
     std::cout << p_[0] << " " << p_[1] << " " << p_[2] << std::endl;
-- 
2.43.0


From e5b5082fd547a297c7186d46de939823ad6fbec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 101/196] fix: CMat4::SetQuaternion did not compile

---
 include/delfem2/mat4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/mat4.h b/include/delfem2/mat4.h
index 7186624..c2565bb 100644
--- a/include/delfem2/mat4.h
+++ b/include/delfem2/mat4.h
@@ -422,7 +422,7 @@ class CMat4 {
                            x, y, z);
   }
   void SetQuaternion(const REAL *q) {
-    Mat4_Quat(mat,
+    Mat4_AffineQuaternion(mat,
               q);
   }
 
-- 
2.43.0


From bc7034660acec5d52a5cb46a6c97717b0a24abe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 102/196] fix: Inverse_Mat4 lost all digits on a tiny positive
 pivot

---
 include/delfem2/mat4.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/mat4.cpp b/include/delfem2/mat4.cpp
index 9b9feb2..0a355c6 100644
--- a/include/delfem2/mat4.cpp
+++ b/include/delfem2/mat4.cpp
@@ -745,14 +745,10 @@ template<typename REAL>
 DFM2_INLINE void delfem2::Inverse_Mat4(
     REAL minv[16],
     const REAL m[16]) {
+  // always pivot: a tiny positive pivot (e.g., cos of a right angle) loses all digits
   for (int i = 0; i < 16; ++i) { minv[i] = m[i]; }
-  int info;
-  mat4::CalcInvMat(minv, 4, info);
-  if (info != 0) {
-    for (int i = 0; i < 16; ++i) { minv[i] = m[i]; }
-    unsigned int tmp[4];
-    mat4::CalcInvMatPivot(minv, 4, tmp);
-  }
+  unsigned int tmp[4];
+  mat4::CalcInvMatPivot(minv, 4, tmp);
 }
 #ifdef DFM2_STATIC_LIBRARY
 template void delfem2::Inverse_Mat4(float minv[], const float m[]);
-- 
2.43.0


From a5a000044343d21263cffdab4ed55efdb1b8cc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 103/196] fix: RotationalComponentOfMatrix2 returned zero for
 some diagonal matrices

---
 include/delfem2/mat2.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/mat2.cpp b/include/delfem2/mat2.cpp
index 331017a..e97a17f 100644
--- a/include/delfem2/mat2.cpp
+++ b/include/delfem2/mat2.cpp
@@ -135,12 +135,16 @@ DFM2_INLINE void delfem2::RotationalComponentOfMatrix2(
       d = sqrt(d);
       l0 = 0.5 * (b + d);
       l1 = 0.5 * (b - d);
-      v0[0] = G[1];
-      v0[1] = G[3] - l1;
-      if (lcl::SquareLength2(v0) > eps) { lcl::Normalize2(v0); }
-      v1[0] = G[0] - l0;
-      v1[1] = G[2];
-      if (lcl::SquareLength2(v1) > eps) { lcl::Normalize2(v1); }
+      if (G[0] > G[3]) { // choose the row that does not vanish
+        v0[0] = G[0] - l1;
+        v0[1] = G[2];
+      } else {
+        v0[0] = G[1];
+        v0[1] = G[3] - l1;
+      }
+      lcl::Normalize2(v0);
+      v1[0] = -v0[1];
+      v1[1] = v0[0];
     }
   }
   double V[4] = {v0[0], v1[0], v0[1], v1[1]};
-- 
2.43.0


From 54d5290fd97258ddb502b3fc98e50c64364a74bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 104/196] fix: the 2x2 polar decomposition of a scaled
 reflection was NaN

---
 include/delfem2/mat2.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/mat2.cpp b/include/delfem2/mat2.cpp
index e97a17f..8cc7d45 100644
--- a/include/delfem2/mat2.cpp
+++ b/include/delfem2/mat2.cpp
@@ -237,9 +237,9 @@ void delfem2::polar_decomposition(
     const CMat2<T> &m) {
   auto x = m(0, 0) + m(1, 1);
   auto y = m(1, 0) - m(0, 1);
-  auto scale = static_cast<T>(1) / std::sqrt(x * x + y * y);
-  auto c = x * scale;
-  auto s = y * scale;
+  const auto len = std::sqrt(x * x + y * y);
+  const T c = (len > 0) ? x / len : static_cast<T>(1);
+  const T s = (len > 0) ? y / len : static_cast<T>(0);
   R(0, 0) = c;
   R(0, 1) = -s;
   R(1, 0) = s;
-- 
2.43.0


From 362bc17ca2a3615e0d91cce7dc5dc9cb31b9b499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 105/196] fix: the 2x2 SVD left the off-diagonal singular
 values unset

---
 include/delfem2/mat2.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/mat2.cpp b/include/delfem2/mat2.cpp
index 8cc7d45..69821ae 100644
--- a/include/delfem2/mat2.cpp
+++ b/include/delfem2/mat2.cpp
@@ -267,6 +267,7 @@ void delfem2::svd(CMat2<T> &U,
     s = -t * c;
     sig(0, 0) = (c * c) * S(0, 0) - 2 * c * s * S(0, 1) + (s * s) * S(1, 1);
     sig(1, 1) = (s * s) * S(0, 0) + 2 * c * s * S(0, 1) + (c * c) * S(1, 1);
+    sig(0, 1) = sig(1, 0) = 0;
   }
   if (sig(0, 0) < sig(1, 1)) {
     std::swap(sig(0, 0), sig(1, 1));
-- 
2.43.0


From caceb68b91c66cf671d37a65f45707c21afcbb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 106/196] fix: SphericalLinearInterp of a quaternion with
 itself could be NaN

---
 include/delfem2/quat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/quat.cpp b/include/delfem2/quat.cpp
index 0534778..383ccd3 100644
--- a/include/delfem2/quat.cpp
+++ b/include/delfem2/quat.cpp
@@ -368,7 +368,7 @@ delfem2::CQuat<T> delfem2::SphericalLinearInterp(
   const T qr = Dot_Quat(q0.p, q1.p);
   const T ss = 1 - qr * qr;
 
-  if (ss == 0.0) { return q0; }
+  if (ss <= 0.0) { return q0; }
   const T sp = std::sqrt(ss);
   const T ph = std::acos(qr);
   const T pt = ph * t;
-- 
2.43.0


From ddd304f89af22e72e09c345ceda59e920af34f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 107/196] fix: scalar multiplication and division of
 quaternions were declared but not defined

---
 include/delfem2/quat.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/delfem2/quat.cpp b/include/delfem2/quat.cpp
index 383ccd3..76a9573 100644
--- a/include/delfem2/quat.cpp
+++ b/include/delfem2/quat.cpp
@@ -317,6 +317,20 @@ template CQuat<float> operator*(const CQuat<float> &lhs, float rhs);
 
 // ---------------------
 
+template<typename T>
+CQuat<T> operator*(const T lhs, const CQuat<T> &rhs) {
+  return rhs * lhs;
+}
+
+// ---------------------
+
+template<typename T>
+CQuat<T> operator/(const CQuat<T> &lhs, const T rhs) {
+  return CQuat<T>(lhs.w / rhs, lhs.x / rhs, lhs.y / rhs, lhs.z / rhs);
+}
+
+// ---------------------
+
 template<typename T>
 std::ostream &operator<<(std::ostream &output, const CQuat<T> &q) {
   output << q.w << " " << q.x << " " << q.y << " " << q.z;
-- 
2.43.0


From 1d3950da136b5090b6eb1d0cecbd1916629fc493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 108/196] fix: Svd3 of a rank-one matrix along (1,1,1) was NaN

---
 include/delfem2/svd3.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/svd3.cpp b/include/delfem2/svd3.cpp
index c6a5c75..d473c66 100644
--- a/include/delfem2/svd3.cpp
+++ b/include/delfem2/svd3.cpp
@@ -246,9 +246,11 @@ DFM2_INLINE void delfem2::Svd3(
     svd3::Normalize3(u0);
     const double sql1 = svd3::SqLength3(u1);
     if (sql1 < 1.0e-20) {
-      u1[0] = 1.0 - fabs(u0[0]);
-      u1[1] = 1.0 - fabs(u0[1]);
-      u1[2] = 1.0 - fabs(u0[2]);
+      // unit vector along the axis that is least aligned with u0
+      u1[0] = u1[1] = u1[2] = 0.0;
+      int imin = (fabs(u0[1]) < fabs(u0[0])) ? 1 : 0;
+      imin = (fabs(u0[2]) < fabs(u0[imin])) ? 2 : imin;
+      u1[imin] = 1.0;
     } else {
       svd3::Normalize3(u1);
     }
-- 
2.43.0


From d3c063776ea7a1bfb2530457c2a2355ec6409f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 109/196] fix: fem_dkt.h includes fem_dkt.cpp, the file that
 exists

---
 include/delfem2/fem_dkt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/fem_dkt.h b/include/delfem2/fem_dkt.h
index e08eb28..bf7c406 100644
--- a/include/delfem2/fem_dkt.h
+++ b/include/delfem2/fem_dkt.h
@@ -37,7 +37,7 @@ DFM2_INLINE void MakeMat_PlateBendingDKT
 } // namespace delfem2
 
 #ifndef DFM2_STATIC_LIBRARY
-#  include "delfem2/femdkt.cpp"
+#  include "delfem2/fem_dkt.cpp"
 #endif
   
 #endif /* fem_ematrix_h */
-- 
2.43.0


From dcecb9cf0b2c670688be5c136973dc1061af349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 110/196] fix: MergeLinSys_LinearSolid3D_Static_Q1 calls
 setZero, the matrix's own name

---
 include/delfem2/fem_solidlinear.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/fem_solidlinear.h b/include/delfem2/fem_solidlinear.h
index 363d5fa..8ab4886 100644
--- a/include/delfem2/fem_solidlinear.h
+++ b/include/delfem2/fem_solidlinear.h
@@ -251,7 +251,7 @@ void MergeLinSys_LinearSolid3D_Static_Q1(
   const unsigned int np = aXYZ.size()/3;
   const unsigned int nDoF = np*3;
   //
-  mat_A.SetZero();
+  mat_A.setZero();
   vec_b.assign(nDoF, 0.0);
   std::vector<unsigned int> tmp_buffer(np, UINT_MAX);
   for (unsigned int iel = 0; iel<aHex.size()/8; ++iel){
-- 
2.43.0


From ec9e1021f1fc193186e48b52d1134191ef82301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 111/196] fix: additive EMat_SolidLinear_Static_Tet subtracts
 only its own stiffness from the residual

---
 include/delfem2/fem_solidlinear.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/fem_solidlinear.cpp b/include/delfem2/fem_solidlinear.cpp
index 7503d2c..c109f92 100644
--- a/include/delfem2/fem_solidlinear.cpp
+++ b/include/delfem2/fem_solidlinear.cpp
@@ -421,17 +421,18 @@ DFM2_INLINE void delfem2::EMat_SolidLinear_Static_Tet(
     TetDlDx(dldx, const_term, P[0], P[1], P[2], P[3]);
   }
   // ----------------------
-  if (is_add) {
-    femsolidlinear::AddEmat_LinearSolid3<4>(emat, lambda, myu, dldx, vol);
-  } else {
-    SetEmat_LinearSolid3<4>(emat, lambda, myu, dldx, vol);
-  }
+  double estiff[4][4][3][3];  // stiffness of this element alone
+  SetEmat_LinearSolid3<4>(estiff, lambda, myu, dldx, vol);
   if (!is_add) {
-    for (int i = 0; i < 12; ++i) { (&eres[0][0])[i] = 0.0; }
+    std::fill_n(&emat[0][0][0][0], 4 * 4 * 3 * 3, 0.0);
+    std::fill_n(&eres[0][0], 4 * 3, 0.0);
+  }
+  for (int i = 0; i < 4 * 4 * 3 * 3; ++i) {
+    (&emat[0][0][0][0])[i] += (&estiff[0][0][0][0])[i];
   }
   AddEmatEvecScale3<4>(
     eres,
-    emat, disp, -1.);
+    estiff, disp, -1.);
 }
 
 DFM2_INLINE void delfem2::EMat_SolidLinear_NewmarkBeta_MeshTet3D(
-- 
2.43.0


From cdf5e815bd1f59b19c4c9f7cf2d05d33651f06e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 112/196] fix: the Navier-Stokes SUPG term integrates products
 of different velocity components exactly too

---
 include/delfem2/fem_navierstokes.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/fem_navierstokes.cpp b/include/delfem2/fem_navierstokes.cpp
index 999bf45..6d460e8 100644
--- a/include/delfem2/fem_navierstokes.cpp
+++ b/include/delfem2/fem_navierstokes.cpp
@@ -97,6 +97,8 @@ DFM2_INLINE void delfem2::MakeMat_NavierStokes2D_Dynamic_Newmark_P1P1(
         tmp_mat[1][1] += velo[ino][1]*velo[jno][1];
       }
       tmp_mat[0][0] += velo[ino][0]*velo[ino][0];
+      tmp_mat[0][1] += velo[ino][0]*velo[ino][1];
+      tmp_mat[1][0] += velo[ino][1]*velo[ino][0];
       tmp_mat[1][1] += velo[ino][1]*velo[ino][1];
     }
     for(int ino=0;ino<nno;ino++){
@@ -452,9 +454,11 @@ DFM2_INLINE void delfem2::MakeMat_NavierStokes3D_Dynamic_Newmark_P1P1(
         tmp_mat[2][1] += velo[ino][2]*velo[jno][1];
         tmp_mat[2][2] += velo[ino][2]*velo[jno][2];
       }
-      tmp_mat[0][0] += velo[ino][0]*velo[ino][0];
-      tmp_mat[1][1] += velo[ino][1]*velo[ino][1];
-      tmp_mat[2][2] += velo[ino][2]*velo[ino][2];
+      for(int idim=0;idim<ndim;idim++){
+        for(int jdim=0;jdim<ndim;jdim++){
+          tmp_mat[idim][jdim] += velo[ino][idim]*velo[ino][jdim];
+        }
+      }
     }
     for(int ino=0;ino<nno;ino++){
       for(int jno=0;jno<nno;jno++){
-- 
2.43.0


From 05883799a929ede8d8bf94f0ea819e657558f193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 113/196] fix: MITC3 shear energy depended on the orientation
 of the triangle (cross term had half the weight)

---
 include/delfem2/fem_mitc3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/fem_mitc3.cpp b/include/delfem2/fem_mitc3.cpp
index 654666c..0fe1fe5 100644
--- a/include/delfem2/fem_mitc3.cpp
+++ b/include/delfem2/fem_mitc3.cpp
@@ -131,8 +131,8 @@ DFM2_INLINE void delfem2::WdWddW_PlateBendingMITC3(
          myu * GuGu2[1] * GuGu2[3]}  // st*st -> ss(1):tt(3)
     };
     const double CnstB[2][2] = {
-        {4.0 * CnstA[0][0], 2.0 * CnstA[0][1]},
-        {2.0 * CnstA[1][0], 4.0 * CnstA[1][1]}};
+        {4.0 * CnstA[0][0], 4.0 * CnstA[0][1]},
+        {4.0 * CnstA[1][0], 4.0 * CnstA[1][1]}};
     const double Ert_01 =
         0.5 * thk * (u[1][0] - u[0][0] + 0.5 * Gd[0][0] * (u[0][2] + u[1][2]) - 0.5 * Gd[0][1] * (u[0][1] + u[1][1]));
     const double Ert_12 =
-- 
2.43.0


From 614bb67f017db782a8d0341dc4e3ada7c537d623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 114/196] fix: MITC3 merge puts load minus internal force in
 the right-hand side

---
 include/delfem2/fem_mitc3.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/fem_mitc3.h b/include/delfem2/fem_mitc3.h
index 06eec03..fcd8d4c 100644
--- a/include/delfem2/fem_mitc3.h
+++ b/include/delfem2/fem_mitc3.h
@@ -81,9 +81,11 @@ void MergeLinSys_ShellStaticPlateBendingMITC3_MeshTri2D(
         thick, lambda, myu);
     {
       const double A = delfem2::femutil::TriArea2D(P[0], P[1], P[2]);
-      dW[0][0] = rho * A * thick / 3.0 * gravity_z;
-      dW[1][0] = rho * A * thick / 3.0 * gravity_z;
-      dW[2][0] = rho * A * thick / 3.0 * gravity_z;
+      for (unsigned int ino = 0; ino < 3; ino++) {  // residual is load minus internal force
+        dW[ino][0] = rho * A * thick / 3.0 * gravity_z - dW[ino][0];
+        dW[ino][1] = -dW[ino][1];
+        dW[ino][2] = -dW[ino][2];
+      }
     }
     for (unsigned int ino = 0; ino < 3; ino++) {
       const unsigned int ip = aIP[ino];
-- 
2.43.0


From ea37b47dc214e63bc702887c748bb5c70c47798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 115/196] fix: WdWddW_MIPS: the mixed terms of the Hessian were
 transposed

---
 include/delfem2/fem_mips.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/fem_mips.cpp b/include/delfem2/fem_mips.cpp
index ac8a7e4..6762928 100644
--- a/include/delfem2/fem_mips.cpp
+++ b/include/delfem2/fem_mips.cpp
@@ -105,15 +105,15 @@ DFM2_INLINE void delfem2::WdWddW_MIPS(
     dE[1][idim]=EC*dEA*dad1[idim]+EA*dECd1[idim];
     dE[2][idim]=EC*dEA*dad2[idim]+EA*dECd2[idim];
   }
-  CMat3d ddEd0d0 = EC*dEA*ddad0d0 + EC*ddEA*op(dad0,dad0) + EA*CMat3d::Identity(t00) + dEA*op(dad0,dECd0)*2.0;
-  CMat3d ddEd0d1 = EC*dEA*ddad0d1 + EC*ddEA*op(dad0,dad1) + EA*CMat3d::Identity(t01) + dEA*op(dad0,dECd1) + dEA*op(dad1,dECd0);
-  CMat3d ddEd0d2 = EC*dEA*ddad0d2 + EC*ddEA*op(dad0,dad2) + EA*CMat3d::Identity(t02) + dEA*op(dad0,dECd2) + dEA*op(dad2,dECd0);
-  CMat3d ddEd1d0 = EC*dEA*ddad1d0 + EC*ddEA*op(dad1,dad0) + EA*CMat3d::Identity(t01) + dEA*op(dad1,dECd0) + dEA*op(dad0,dECd1);
-  CMat3d ddEd1d1 = EC*dEA*ddad1d1 + EC*ddEA*op(dad1,dad1) + EA*CMat3d::Identity(t11) + dEA*op(dad1,dECd1)*2.0;
-  CMat3d ddEd1d2 = EC*dEA*ddad1d2 + EC*ddEA*op(dad1,dad2) + EA*CMat3d::Identity(t12) + dEA*op(dad1,dECd2) + dEA*op(dad2,dECd1);
-  CMat3d ddEd2d0 = EC*dEA*ddad2d0 + EC*ddEA*op(dad2,dad0) + EA*CMat3d::Identity(t02) + dEA*op(dad2,dECd0) + dEA*op(dad0,dECd2);
-  CMat3d ddEd2d1 = EC*dEA*ddad2d1 + EC*ddEA*op(dad2,dad1) + EA*CMat3d::Identity(t12) + dEA*op(dad2,dECd1) + dEA*op(dad1,dECd2);
-  CMat3d ddEd2d2 = EC*dEA*ddad2d2 + EC*ddEA*op(dad2,dad2) + EA*CMat3d::Identity(t22) + dEA*op(dad2,dECd2)*2.0;
+  CMat3d ddEd0d0 = EC*dEA*ddad0d0 + EC*ddEA*op(dad0,dad0) + EA*CMat3d::Identity(t00) + dEA*op(dad0,dECd0) + dEA*op(dECd0,dad0);
+  CMat3d ddEd0d1 = EC*dEA*ddad0d1 + EC*ddEA*op(dad0,dad1) + EA*CMat3d::Identity(t01) + dEA*op(dad0,dECd1) + dEA*op(dECd0,dad1);
+  CMat3d ddEd0d2 = EC*dEA*ddad0d2 + EC*ddEA*op(dad0,dad2) + EA*CMat3d::Identity(t02) + dEA*op(dad0,dECd2) + dEA*op(dECd0,dad2);
+  CMat3d ddEd1d0 = EC*dEA*ddad1d0 + EC*ddEA*op(dad1,dad0) + EA*CMat3d::Identity(t01) + dEA*op(dad1,dECd0) + dEA*op(dECd1,dad0);
+  CMat3d ddEd1d1 = EC*dEA*ddad1d1 + EC*ddEA*op(dad1,dad1) + EA*CMat3d::Identity(t11) + dEA*op(dad1,dECd1) + dEA*op(dECd1,dad1);
+  CMat3d ddEd1d2 = EC*dEA*ddad1d2 + EC*ddEA*op(dad1,dad2) + EA*CMat3d::Identity(t12) + dEA*op(dad1,dECd2) + dEA*op(dECd1,dad2);
+  CMat3d ddEd2d0 = EC*dEA*ddad2d0 + EC*ddEA*op(dad2,dad0) + EA*CMat3d::Identity(t02) + dEA*op(dad2,dECd0) + dEA*op(dECd2,dad0);
+  CMat3d ddEd2d1 = EC*dEA*ddad2d1 + EC*ddEA*op(dad2,dad1) + EA*CMat3d::Identity(t12) + dEA*op(dad2,dECd1) + dEA*op(dECd2,dad1);
+  CMat3d ddEd2d2 = EC*dEA*ddad2d2 + EC*ddEA*op(dad2,dad2) + EA*CMat3d::Identity(t22) + dEA*op(dad2,dECd2) + dEA*op(dECd2,dad2);
   
   for(int idim=0;idim<3;++idim){
     for(int jdim=0;jdim<3;++jdim){
-- 
2.43.0


From 660f484ffa1f9dfead44274a45f1b5801ec88407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 116/196] fix: WdWddW_CST: the positive part of the stress was
 built on the wrong principal direction

---
 include/delfem2/fem_stvk.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/fem_stvk.cpp b/include/delfem2/fem_stvk.cpp
index cc44675..b6a7750 100644
--- a/include/delfem2/fem_stvk.cpp
+++ b/include/delfem2/fem_stvk.cpp
@@ -243,9 +243,10 @@ DFM2_INLINE void MakePositiveDefinite_Sim22(
     const double invlen_t0 = 1.0/sqrt(sqlen_t0);
     t0[0] *= invlen_t0;
     t0[1] *= invlen_t0;
-    s3[0] = l*t0[0]*t0[0];
-    s3[1] = l*t0[1]*t0[1];
-    s3[2] = l*t0[0]*t0[1];
+    // the rows of (S-l*I) are orthogonal to the eigen vector of l
+    s3[0] = l*t0[1]*t0[1];
+    s3[1] = l*t0[0]*t0[0];
+    s3[2] = -l*t0[0]*t0[1];
   }
   else{
     if( sqlen_t1 < 1.0e-20 ){
@@ -257,9 +258,9 @@ DFM2_INLINE void MakePositiveDefinite_Sim22(
     const double invlen_t1 = 1.0/sqrt(sqlen_t1);
     t1[0] *= invlen_t1;
     t1[1] *= invlen_t1;
-    s3[0] = l*t1[0]*t1[0];
-    s3[1] = l*t1[1]*t1[1];
-    s3[2] = l*t1[0]*t1[1];
+    s3[0] = l*t1[1]*t1[1];
+    s3[1] = l*t1[0]*t1[0];
+    s3[2] = -l*t1[0]*t1[1];
   }
 }
 
-- 
2.43.0


From 7d7bd7cb67ed45075f9f1192cb15909b6be5614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 117/196] fix: WdWddW_Bend returned twice the energy its
 gradient belongs to

---
 include/delfem2/fem_quadratic_bending.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/fem_quadratic_bending.cpp b/include/delfem2/fem_quadratic_bending.cpp
index 3cdcc3e..549fd4f 100644
--- a/include/delfem2/fem_quadratic_bending.cpp
+++ b/include/delfem2/fem_quadratic_bending.cpp
@@ -101,7 +101,7 @@ DFM2_INLINE void delfem2::WdWddW_Bend(
           dW[ino][idim] += ddW[ino][jno][idim][jdim] * c[jno][jdim];
         }
       }
-      W += dW[ino][idim] * c[ino][idim];
+      W += 0.5 * dW[ino][idim] * c[ino][idim];
     }
   }
 }
-- 
2.43.0


From 9084326c8ab2932307f65b030238650e8a3fc3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 118/196] fix: SubdivisionPoints_QuadCatmullClark moved
 vertices of no face to the origin

---
 include/delfem2/mshsubdiv.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/mshsubdiv.cpp b/include/delfem2/mshsubdiv.cpp
index 36909ed..36c4b06 100644
--- a/include/delfem2/mshsubdiv.cpp
+++ b/include/delfem2/mshsubdiv.cpp
@@ -654,7 +654,10 @@ void delfem2::SubdivisionPoints_QuadCatmullClark(
   }
   for (unsigned int iv = 0; iv < nv0; ++iv) {
     const unsigned int nf = aNFace[iv]; // number of faces touching this vertex
-    if (nf == 0) { continue; }
+    if (nf == 0) { // a vertex that belongs to no face stays where it is
+      for (int i = 0; i < 3; ++i) { vtx_xyz1[iv * 3 + i] = vtx_xyz0[iv * 3 + i]; }
+      continue;
+    }
     // add face
     const double tmp0 = 1.0 / (nf * nf);
     vtx_xyz1[iv * 3 + 0] *= tmp0;
-- 
2.43.0


From 1235ab43b104bf6f64027d54f5fab07f6f37a40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:04 +0000
Subject: [PATCH 119/196] fix: SubdivTopo_MeshQuad took a quad with the edge on
 its diagonal for a neighbour of the edge

---
 include/delfem2/mshsubdiv.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/delfem2/mshsubdiv.cpp b/include/delfem2/mshsubdiv.cpp
index 36c4b06..074662a 100644
--- a/include/delfem2/mshsubdiv.cpp
+++ b/include/delfem2/mshsubdiv.cpp
@@ -96,6 +96,9 @@ DFM2_INLINE void delfem2::SubdivTopo_MeshQuad(
         const unsigned int jp3 = quad_vtxidx0[jq0 * 4 + 3];
         if ((jp0 != ip) && (jp1 != ip) && (jp2 != ip) && (jp3 != ip)) { continue; }
         if ((jp0 != ip1) && (jp1 != ip1) && (jp2 != ip1) && (jp3 != ip1)) { continue; }
+        // ip and ip1 are on the diagonal
+        if (((jp0 == ip) && (jp2 == ip1)) || ((jp0 == ip1) && (jp2 == ip))) { continue; }
+        if (((jp1 == ip) && (jp3 == ip1)) || ((jp1 == ip1) && (jp3 == ip))) { continue; }
         // ----------------------------
         if (iq0 == UINT_MAX) { iq0 = jq0; }
         else {
-- 
2.43.0


From 3ab43e4cb07ad6499af4763a322ece6d75d475cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 120/196] fix: SearchGrid::PostProcess read one element past
 the end of the sorted objects

---
 include/delfem2/srchgrid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/srchgrid.h b/include/delfem2/srchgrid.h
index 497809b..81a974f 100644
--- a/include/delfem2/srchgrid.h
+++ b/include/delfem2/srchgrid.h
@@ -97,7 +97,7 @@ public:
     {
       unsigned int i0 = 0;
       for (unsigned int ig = 0; ig < ng; ++ig) {
-        while (aGrid2Obj[i0].igrid <= ig && i0 < aGrid2Obj.size()) { i0++; }
+        while (i0 < aGrid2Obj.size() && aGrid2Obj[i0].igrid <= ig) { i0++; }
         aGrid2Obj_ind[ig + 1] = i0;
       }
     }
-- 
2.43.0


From cc4f3be22a119708e01c9064f72c0a29d615595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 121/196] fix: SearchGrid had no cells for a flat bounding box

---
 include/delfem2/srchgrid.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/delfem2/srchgrid.h b/include/delfem2/srchgrid.h
index 81a974f..33c8572 100644
--- a/include/delfem2/srchgrid.h
+++ b/include/delfem2/srchgrid.h
@@ -51,6 +51,10 @@ public:
     nx = static_cast<unsigned int>(ceil((bbmax[0] - bbmin[0]) / h));
     ny = static_cast<unsigned int>(ceil((bbmax[1] - bbmin[1]) / h));
     nz = static_cast<unsigned int>(ceil((bbmax[2] - bbmin[2]) / h));
+    // a box without thickness still has one layer of cells
+    nx = std::max(nx, 1u);
+    ny = std::max(ny, 1u);
+    nz = std::max(nz, 1u);
     aGrid2Obj.resize(nobj);
   }
 
-- 
2.43.0


From f81ef8ea6cb66a8d71c789852681cf92b608cd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 122/196] fix: KDTTriangle lost the nearest triangle because
 the distance to a box was taken to its corners only

---
 include/delfem2/srch_kdtree_tri.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/srch_kdtree_tri.h b/include/delfem2/srch_kdtree_tri.h
index e395c37..08d5593 100644
--- a/include/delfem2/srch_kdtree_tri.h
+++ b/include/delfem2/srch_kdtree_tri.h
@@ -61,8 +61,8 @@ struct KDTTriangle {
 					dist.max = hogedist;
 			}
 
-			if (Q[0] < AABBmax[0] && Q[0] > AABBmin[0] && Q[1] < AABBmax[1] && Q[1] > AABBmin[1] && Q[2] < AABBmax[2] && Q[2] > AABBmin[2])
-				dist.min = 0.0;
+			// the nearest point of the box is not necessarily one of its corners
+			dist.min = (Q - VEC { std::clamp(Q[0], AABBmin[0], AABBmax[0]), std::clamp(Q[1], AABBmin[1], AABBmax[1]), std::clamp(Q[2], AABBmin[2], AABBmax[2]) }).norm();
 
 			return dist;
 		}
-- 
2.43.0


From f41148da8dd9c8b5654e25543299cc55caf1c45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 123/196] fix: walking version of Nearest_Point_MeshTet3D did
 not compile without geo_tet.h

---
 include/delfem2/srch_bruteforce.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/srch_bruteforce.cpp b/include/delfem2/srch_bruteforce.cpp
index d252b6d..5bbad08 100644
--- a/include/delfem2/srch_bruteforce.cpp
+++ b/include/delfem2/srch_bruteforce.cpp
@@ -347,6 +347,7 @@ delfem2::PointInSolidMesh<T> delfem2::Nearest_Point_MeshTet3D(
     const std::vector<double> &aXYZ,
     const std::vector<int> &aTet,
     const std::vector<int> &aTetSurRel) {
+  namespace lcl = delfem2::srchuni;
   const double eps = 1.0e-4;
   int itet1 = itet_start;
   if (itet1 < 0 || itet1 >= (int) aTet.size() / 4) { return PointInSolidMesh<T>(); }
@@ -360,10 +361,10 @@ delfem2::PointInSolidMesh<T> delfem2::Nearest_Point_MeshTet3D(
     const CVec3<T> p1(aXYZ[ip1 * 3 + 0], aXYZ[ip1 * 3 + 1], aXYZ[ip1 * 3 + 2]);
     const CVec3<T> p2(aXYZ[ip2 * 3 + 0], aXYZ[ip2 * 3 + 1], aXYZ[ip2 * 3 + 2]);
     const CVec3<T> p3(aXYZ[ip3 * 3 + 0], aXYZ[ip3 * 3 + 1], aXYZ[ip3 * 3 + 2]);
-    double v0 = Volume_Tet(p, p1, p2, p3);
-    double v1 = Volume_Tet(p0, p, p2, p3);
-    double v2 = Volume_Tet(p0, p1, p, p3);
-    double v3 = Volume_Tet(p0, p1, p2, p);
+    double v0 = lcl::Volume_Tet(p, p1, p2, p3);
+    double v1 = lcl::Volume_Tet(p0, p, p2, p3);
+    double v2 = lcl::Volume_Tet(p0, p1, p, p3);
+    double v3 = lcl::Volume_Tet(p0, p1, p2, p);
     double vt = (v0 + v1 + v2 + v3);
     if (v0 > -eps * vt && v1 > -eps * vt && v2 > -eps * vt && v3 > -eps * vt) {
       double r0 = v0 / (v0 + v1 + v2 + v3);
-- 
2.43.0


From a51e0240ba01012440b96159c287751abe3e1af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 124/196] fix: Nearest_Point_MeshTet3D walked through the last
 face when two other faces tied

---
 include/delfem2/srch_bruteforce.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/srch_bruteforce.cpp b/include/delfem2/srch_bruteforce.cpp
index 5bbad08..0080106 100644
--- a/include/delfem2/srch_bruteforce.cpp
+++ b/include/delfem2/srch_bruteforce.cpp
@@ -373,9 +373,9 @@ delfem2::PointInSolidMesh<T> delfem2::Nearest_Point_MeshTet3D(
       PointInSolidMesh<T> pt(itet1, r0, r1, r2);
       return pt;
     }
-    if (v0 < v1 && v0 < v2 && v0 < v3) { itet1 = aTetSurRel[itet1 * 8 + 0 * 2 + 0]; }
-    else if (v1 < v0 && v1 < v2 && v1 < v3) { itet1 = aTetSurRel[itet1 * 8 + 1 * 2 + 0]; }
-    else if (v2 < v0 && v2 < v1 && v2 < v3) { itet1 = aTetSurRel[itet1 * 8 + 2 * 2 + 0]; }
+    if (v0 <= v1 && v0 <= v2 && v0 <= v3) { itet1 = aTetSurRel[itet1 * 8 + 0 * 2 + 0]; }
+    else if (v1 <= v0 && v1 <= v2 && v1 <= v3) { itet1 = aTetSurRel[itet1 * 8 + 1 * 2 + 0]; }
+    else if (v2 <= v0 && v2 <= v1 && v2 <= v3) { itet1 = aTetSurRel[itet1 * 8 + 2 * 2 + 0]; }
     else { itet1 = aTetSurRel[itet1 * 8 + 3 * 2 + 0]; }
   }
   return PointInSolidMesh<T>();
-- 
2.43.0


From 9228e17a91ac62dc1f006195d61430fd4613d5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 125/196] fix: Nearest_Triangle3_Point3 returned a point of the
 boundary for a point inside the triangle and in its plane

---
 include/delfem2/geo_tri.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 406da70..77c8e32 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -66,12 +66,10 @@ DFM2_INLINE void delfem2::Nearest_Triangle3_Point3(
   double area, n012[3];
   UnitNormalAreaTri3(n012, area, q0, q1, q2);
   const double pe[3] = {ps[0] + n012[0], ps[1] + n012[1], ps[2] + n012[2]};
-  const double v012 = lcl::Volume_Tet3(ps, q0, q1, q2);
-  if (fabs(v012) > 1.0e-10) {
-    const double sign = (v012 > 0) ? +1 : -1;
-    const double v0 = lcl::Volume_Tet3(ps, q1, q2, pe) * sign;
-    const double v1 = lcl::Volume_Tet3(ps, q2, q0, pe) * sign;
-    const double v2 = lcl::Volume_Tet3(ps, q0, q1, pe) * sign;
+  if (area > 1.0e-9) { // the point itself may lie in the plane of the triangle
+    const double v0 = lcl::Volume_Tet3(ps, q1, q2, pe);
+    const double v1 = lcl::Volume_Tet3(ps, q2, q0, pe);
+    const double v2 = lcl::Volume_Tet3(ps, q0, q1, pe);
     assert(fabs(v0 + v1 + v2) > 1.0e-10);
     double inv_v012 = 1.0 / (v0 + v1 + v2);
     r0 = v0 * inv_v012;
-- 
2.43.0


From ee2a500664101e3e1ae4cf04ce38ec1975948681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 126/196] fix: Nearest_Point_MeshTetFace3D did not compile and
 mixed relative and absolute positions

---
 include/delfem2/srch_bruteforce.cpp | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/include/delfem2/srch_bruteforce.cpp b/include/delfem2/srch_bruteforce.cpp
index 0080106..2e7b4c0 100644
--- a/include/delfem2/srch_bruteforce.cpp
+++ b/include/delfem2/srch_bruteforce.cpp
@@ -397,7 +397,7 @@ delfem2::PointOnSurfaceMesh<T> delfem2::Nearest_Point_MeshTetFace3D(
   ////
   double dist_min = -1.0;
   int itf_min = -1;
-  CVec3<T> p_min;
+  double r0_min = 0, r1_min = 0;
   for (size_t itf = 0; itf < aTetFaceSrf.size() / 2; ++itf) {
     int itet = aTetFaceSrf[itf * 2 + 0];
     int iface = aTetFaceSrf[itf * 2 + 1];
@@ -413,32 +413,12 @@ delfem2::PointOnSurfaceMesh<T> delfem2::Nearest_Point_MeshTetFace3D(
     if (itf_min == -1 || dist < dist_min) {
       dist_min = dist;
       itf_min = itf;
-      p_min = p2;
+      r0_min = r0;
+      r1_min = r1;
     }
   }
   assert(itf_min != -1);
-  {
-    int itet = aTetFaceSrf[itf_min * 2 + 0];
-    int iface = aTetFaceSrf[itf_min * 2 + 1];
-    const int i0 = aTet[itet * 4 + noelTetFace[iface][0]];
-    const int i1 = aTet[itet * 4 + noelTetFace[iface][1]];
-    const int i2 = aTet[itet * 4 + noelTetFace[iface][2]];
-    CVec3<T> q0(aXYZ[i0 * 3 + 0], aXYZ[i0 * 3 + 1], aXYZ[i0 * 3 + 2]);
-    CVec3<T> q1(aXYZ[i1 * 3 + 0], aXYZ[i1 * 3 + 1], aXYZ[i1 * 3 + 2]);
-    CVec3<T> q2(aXYZ[i2 * 3 + 0], aXYZ[i2 * 3 + 1], aXYZ[i2 * 3 + 2]);
-    double a0 = Area_Tri(p_min, q1, q2);
-    double a1 = Area_Tri(p_min, q2, q0);
-    double a2 = Area_Tri(p_min, q0, q1);
-    double inva = 1.0 / (a0 + a1 + a2);
-    a0 *= inva;
-    a1 *= inva;
-    a2 *= inva;
-    PointOnSurfaceMesh<T> ptf;
-    ptf.itri = itf_min;
-    ptf.r0 = a0;
-    ptf.r1 = a1;
-    return ptf;
-  }
+  return PointOnSurfaceMesh<T>(itf_min, r0_min, r1_min);
 }
 
 // ----------------------------------------
-- 
2.43.0


From caad644e5b0bf6034e4835c612f6dd16e70e4532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 127/196] fix: Distance_Edge2_Edge2 called a function that does
 not exist

---
 include/delfem2/geo_edge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 1d0e64d..26b82b4 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -184,7 +184,7 @@ double delfem2::Distance_Edge2_Edge2(
   const CVec2<T> &po_e0,
   const CVec2<T> &po_s1,
   const CVec2<T> &po_e1) {
-  if (IsCross_LineSeg_LineSeg(po_s0, po_e0, po_s1, po_e1)) return -1;
+  if (IsIntersect_Edge2_Edge2(po_s0, po_e0, po_s1, po_e1)) return -1;
   const double ds1 = Distance_Edge_Point(po_s0, po_s1, po_e1);
   const double de1 = Distance_Edge_Point(po_e0, po_s1, po_e1);
   const double ds0 = Distance_Edge_Point(po_s1, po_s0, po_e0);
-- 
2.43.0


From 1841d9cf6c88fbb2be658527c4afe7fde4e85545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 128/196] fix: IsIntersect_AABB2_Edge2 was defined outside the
 namespace it is declared in

---
 include/delfem2/geo_edge.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 26b82b4..59e3917 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -197,7 +197,7 @@ double delfem2::Distance_Edge2_Edge2(
 }
 
 template<typename VEC>
-bool IsIntersect_AABB2_Edge2(
+bool delfem2::IsIntersect_AABB2_Edge2(
   const VEC &pmin,
   const VEC &pmax,
   const VEC &p0,
@@ -268,12 +268,12 @@ bool IsIntersect_AABB2_Edge2(
   return false;
 }
 #ifdef DFM2_STATIC_LIBRARY
-template bool IsIntersect_AABB2_Edge2(
+template bool delfem2::IsIntersect_AABB2_Edge2(
   const delfem2::CVec2d &pmin,
   const delfem2::CVec2d &pmax,
   const delfem2::CVec2d &p0,
   const delfem2::CVec2d &p1);
-template bool IsIntersect_AABB2_Edge2(
+template bool delfem2::IsIntersect_AABB2_Edge2(
   const delfem2::CVec2f &pmin,
   const delfem2::CVec2f &pmax,
   const delfem2::CVec2f &p0,
-- 
2.43.0


From 123331cfcf664d789eaa2bff50281eb96f52a472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 129/196] fix: IsIntersect_AABB2_Edge2 missed an edge that
 touches a corner from one side

---
 include/delfem2/geo_edge.cpp | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 59e3917..d7f5995 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -239,29 +239,17 @@ bool delfem2::IsIntersect_AABB2_Edge2(
   const VEC normal = {direction[1], -direction[0]};
 
   bool positive = false, negative = false;
-  if (normal.dot(pmin - p0) > 0) {
-    positive = true;
-  } else {
-    negative = true;
-  }
+  if (normal.dot(pmin - p0) >= 0) { positive = true; }
+  if (normal.dot(pmin - p0) <= 0) { negative = true; }
 
-  if (normal.dot(pmax - p0) > 0) {
-    positive = true;
-  } else {
-    negative = true;
-  }
+  if (normal.dot(pmax - p0) >= 0) { positive = true; }
+  if (normal.dot(pmax - p0) <= 0) { negative = true; }
 
-  if (normal.dot(VEC(pmin[0], pmax[1]) - p0) > 0) {
-    positive = true;
-  } else {
-    negative = true;
-  }
+  if (normal.dot(VEC(pmin[0], pmax[1]) - p0) >= 0) { positive = true; }
+  if (normal.dot(VEC(pmin[0], pmax[1]) - p0) <= 0) { negative = true; }
 
-  if (normal.dot(VEC(pmax[0], pmin[1]) - p0) > 0) {
-    positive = true;
-  } else {
-    negative = true;
-  }
+  if (normal.dot(VEC(pmax[0], pmin[1]) - p0) >= 0) { positive = true; }
+  if (normal.dot(VEC(pmax[0], pmin[1]) - p0) <= 0) { negative = true; }
 
   if (positive && negative) { return true; }
 
-- 
2.43.0


From 84675a28efb8fc018475251ed49af0b18ab5c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 130/196] fix: Distance_Edge3_Edge3 put the nearest points of
 parallel edges outside when one edge spans the other

---
 include/delfem2/geo_edge.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index d7f5995..952a746 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -7,6 +7,7 @@
 
 #include "delfem2/geo_edge.h"
 
+#include <algorithm>
 #include <cstdlib>
 #include <cmath>
 
@@ -379,11 +380,8 @@ double delfem2::Distance_Edge3_Edge3(
     double p_max = (lp0 > lp1) ? lp0 : lp1;
     double q_min = (lq0 < lq1) ? lq0 : lq1;
     double q_max = (lq0 > lq1) ? lq0 : lq1;
-    double lm;
-    if (p_max < q_min) { lm = (p_max + q_min) * 0.5; }
-    else if (q_max < p_min) { lm = (q_max + p_min) * 0.5; }
-    else if (p_max < q_max) { lm = (p_max + q_min) * 0.5; }
-    else { lm = (q_max + p_min) * 0.5; }
+    // middle of the common interval (or of the gap between the intervals)
+    const double lm = (std::min(p_max, q_max) + std::max(p_min, q_min)) * 0.5;
     ratio_p = (lm - lp0) / (lp1 - lp0);
     ratio_q = (lm - lq0) / (lq1 - lq0);
     return dist;
-- 
2.43.0


From 1d9adb1c24e75d92e27483512d5d9fc9267d8bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 131/196] fix: ProjectPointOnTriangle returned NaN for the
 first corner of the triangle

---
 include/delfem2/geo_tri.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 77c8e32..888addd 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -321,8 +321,7 @@ delfem2::CVec3<T> delfem2::ProjectPointOnTriangle(
     const CVec3<T> &tri_p2,
     const CVec3<T> &tri_p3) {
   CVec3<T> normal = Cross(tri_p2 - tri_p1, tri_p3 - tri_p1);
-  double cosAlpha = Dot(p0 - tri_p1, normal) / (Length(p0 - tri_p1) * Length(normal));
-  double lenP0ProjectedP0 = Length(tri_p1 - p0) * cosAlpha;
+  double lenP0ProjectedP0 = Dot(p0 - tri_p1, normal) / Length(normal);
   CVec3<T> p0ProjectedP0 = -1 * lenP0ProjectedP0 * normal / Length(normal);
   return p0 + p0ProjectedP0;
 }
-- 
2.43.0


From 329246412f7c987f93f82c17be697cdbbdf96d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 132/196] fix: SolidAngleTri was off by half a sphere for solid
 angles of more than half a sphere

---
 include/delfem2/geo_tri.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 888addd..2d6c758 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -413,8 +413,7 @@ T delfem2::SolidAngleTri(
   const T l3 = v3.norm();
   const T den = (v1.cross(v2)).dot(v3);
   const T num = l1 * l2 * l3 + (v1.dot(v2)) * l3 + (v2.dot(v3)) * l1 + (v3.dot(v1)) * l2;
-  const T tho = den / num;
-  T v = std::atan(tho);
+  T v = std::atan2(den, num);
   if (v < 0) { v += 2 * M_PI; }
   v *= 2;
   return v;
-- 
2.43.0


From c81847c3bc3e01b954546615087f5d6ab219c6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 133/196] fix: isIntersectTriPair lost the intersection when
 the second vertex lies in the plane of the other triangle

---
 include/delfem2/geo_tri.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 2d6c758..f7aa91a 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -239,10 +239,10 @@ bool delfem2::isIntersectTriPair(
   const CVec3<T> q20 = (1.0 / (dq2 - dq0)) * (dq2 * q0 - dq0 * q2);
   const CVec3<T> vz = np.cross(nq);
   CVec3<T> ps, pe;
-  if (dp0 * dp1 > 0) {
+  if ((dp0 > 0) == (dp1 > 0)) {
     ps = p20;
     pe = p12;
-  } else if (dp1 * dp2 > 0) {
+  } else if ((dp1 > 0) == (dp2 > 0)) {
     ps = p01;
     pe = p20;
   } else {
@@ -259,10 +259,10 @@ bool delfem2::isIntersectTriPair(
   assert(zps <= zpe);
   //
   CVec3<T> qs, qe;
-  if (dq0 * dq1 > 0) {
+  if ((dq0 > 0) == (dq1 > 0)) {
     qs = q20;
     qe = q12;
-  } else if (dq1 * dq2 > 0) {
+  } else if ((dq1 > 0) == (dq2 > 0)) {
     qs = q01;
     qe = q20;
   } else {
-- 
2.43.0


From ed3fecff01952ce842e8d2b4462783735cca8e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 134/196] fix: isIntersectTriPair lost the intersection when
 the two intervals on the common line share an end

---
 include/delfem2/geo_tri.cpp | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index f7aa91a..a014658 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -279,28 +279,10 @@ bool delfem2::isIntersectTriPair(
   assert(zqs <= zqe);
   //
   if (zps > zqe || zqs > zpe) return false;
-  CVec3<T> P[4];
-  int icnt = 0;
-  if (zps > zqs && zps < zqe) {
-    P[icnt] = ps;
-    icnt++;
-  }
-  if (zpe > zqs && zpe < zqe) {
-    P[icnt] = pe;
-    icnt++;
-  }
-  if (zqs > zps && zqs < zpe) {
-    P[icnt] = qs;
-    icnt++;
-  }
-  if (zqe > zps && zqe < zpe) {
-    P[icnt] = qe;
-    icnt++;
-  }
-  if (icnt != 2) return false;
-  P0 = P[0];
-  P1 = P[1];
-  return true;
+  // the intervals may share an end
+  P0 = (zps > zqs) ? ps : qs;
+  P1 = (zpe < zqe) ? pe : qe;
+  return std::max(zps, zqs) < std::min(zpe, zqe);
 }
 #ifdef DFM2_STATIC_LIBRARY
 template bool delfem2::isIntersectTriPair(
-- 
2.43.0


From e389509f0b3e68b2df1a9042060010a970843a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 135/196] fix: Tangent_Polyline read past the end for the last
 parameter of the polyline

---
 include/delfem2/geo_polyline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polyline.h b/include/delfem2/geo_polyline.h
index ab854f9..2a473b9 100644
--- a/include/delfem2/geo_polyline.h
+++ b/include/delfem2/geo_polyline.h
@@ -155,7 +155,7 @@ VEC Tangent_Polyline(
   assert(np>=2);
   if (np < 2) { return VEC(0, 0); }
   if (param <= 0) { return polyline[1] - polyline[0]; }
-  if (param >= static_cast<SCALAR>(np)) {
+  if (param >= static_cast<SCALAR>(np - 1)) {
     return polyline[np - 1] - polyline[np - 2];
   }
   const unsigned int ie = int(param);
-- 
2.43.0


From 5b3dd27b1515d846ea0c75ef5b96e7bb0b97e2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 136/196] fix: Nearest_Polyline returned NaN when consecutive
 points coincide

---
 include/delfem2/geo_polyline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polyline.h b/include/delfem2/geo_polyline.h
index 2a473b9..aadac03 100644
--- a/include/delfem2/geo_polyline.h
+++ b/include/delfem2/geo_polyline.h
@@ -185,7 +185,7 @@ template<typename VEC>
     const VEC &sc = polyline[ip] - scr;
     const SCALAR a = es.squaredNorm();
     const SCALAR b = es.dot(sc);
-    const SCALAR ratio = std::clamp(-b / a, static_cast<SCALAR>(0), static_cast<SCALAR>(1));
+    const SCALAR ratio = (a > 0) ? std::clamp(-b / a, static_cast<SCALAR>(0), static_cast<SCALAR>(1)) : 0;
     VEC p = (1 - ratio) * polyline[ip] + ratio * polyline[ip + 1];
     SCALAR dist = (p - scr).norm();
     if (dist_min < 0 || dist < dist_min) {
-- 
2.43.0


From a39e13eeef30c0495e3f63fb6773e1dca28ed314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 137/196] fix: Nearst_Origin3_Quad3 never evaluated the point
 and returned the origin

---
 include/delfem2/geo_quad.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/delfem2/geo_quad.cpp b/include/delfem2/geo_quad.cpp
index b2af965..fb545c0 100644
--- a/include/delfem2/geo_quad.cpp
+++ b/include/delfem2/geo_quad.cpp
@@ -64,6 +64,7 @@ DFM2_INLINE delfem2::CVec3<T> delfem2::Nearst_Origin3_Quad3(
       t0 += d0;
       t1 += d1;
     }
+    q = (1 - t0) * (1 - t1) * q0 + t0 * (1 - t1) * q1 + t0 * t1 * q2 + (1 - t0) * t1 * q3;
     double tol = 1.0e-4;
     if (t0 > -tol && t0 < 1.0 + tol && t1 > -tol && t1 < 1.0 + tol) {
       double d0 = q.norm();
@@ -75,8 +76,6 @@ DFM2_INLINE delfem2::CVec3<T> delfem2::Nearst_Origin3_Quad3(
       }
     }
   }
-  if (dist_min > 0) { return q_min; }
-  //
   const CVec3<T> q01 = Nearest_Origin_Edge(q0, q1);
   const double d01 = q01.norm();
   if (dist_min < 0 || d01 < dist_min) {
-- 
2.43.0


From cd32b6ff272cc2c1bb9d770be68b85162499952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 138/196] fix: intersection_Point_Quad missed the intersection
 when the line starts on the quad

---
 include/delfem2/geo_quad.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_quad.cpp b/include/delfem2/geo_quad.cpp
index fb545c0..a0e24af 100644
--- a/include/delfem2/geo_quad.cpp
+++ b/include/delfem2/geo_quad.cpp
@@ -207,7 +207,7 @@ bool delfem2::intersection_Point_Quad(
     }
   }
   //  std::cout << dist_min << std::endl;
-  if (dist_min > 0) {
+  if (dist_min >= 0) {
     psec = q_min;
     return true;
   }
-- 
2.43.0


From 151559d28d5e615bacb17673cb161a58511539fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 139/196] fix: TriHeight, SquareCircumradius and
 CenterCircumcircle of 2D points did not compile

---
 include/delfem2/vec2.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/vec2.cpp b/include/delfem2/vec2.cpp
index 459dd8a..9ef62de 100644
--- a/include/delfem2/vec2.cpp
+++ b/include/delfem2/vec2.cpp
@@ -323,7 +323,7 @@ double delfem2::SquareDistance(
 // Hight of a triangle : between v1 and line of v2-v3
 template<typename T>
 double delfem2::TriHeight(const CVec2<T> &v1, const CVec2<T> &v2, const CVec2<T> &v3) {
-  const double area = Area_Tri(v1, v2, v3);
+  const double area = Area_Tri2(v1, v2, v3);
   const double len = sqrt(SquareDistance(v2, v3));
   return area * 2.0 / len;
 }
@@ -346,7 +346,7 @@ double delfem2::SquareCircumradius(
     const CVec2<T> &p0,
     const CVec2<T> &p1,
     const CVec2<T> &p2) {
-  const double area = Area_Tri(p0, p1, p2);
+  const double area = Area_Tri2(p0, p1, p2);
 
   const double dtmp0 = SquareDistance(p1, p2);
   const double dtmp1 = SquareDistance(p0, p2);
@@ -362,7 +362,7 @@ bool delfem2::CenterCircumcircle(
     const CVec2<T> &p1,
     const CVec2<T> &p2,
     CVec2<T> &center) {
-  const double area = Area_Tri(p0, p1, p2);
+  const double area = Area_Tri2(p0, p1, p2);
   if (fabs(area) < 1.0e-10) { return false; }
   const double tmp_val = 1.0 / (area * area * 16.0);
 
-- 
2.43.0


From 6c9efcb5aafada9bae40951859c3301e5cab0f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 140/196] fix: RotateVec3WithAxisAngleVector aborted in single
 precision

---
 include/delfem2/vec3_funcs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/vec3_funcs.cpp b/include/delfem2/vec3_funcs.cpp
index ef0d9bc..535571c 100644
--- a/include/delfem2/vec3_funcs.cpp
+++ b/include/delfem2/vec3_funcs.cpp
@@ -42,7 +42,7 @@ VEC delfem2::RotateVec3WithAxisAngleVector(
   }
   Normalize3(e2);
   VEC e1 = Cross(e2, e0);
-  assert(fabs(Length3(e1) - 1) < 1.0e-10);
+  assert(std::fabs(Length3(e1) - 1) < 1.0e-5);
   //	assert( e2.p[0]*vec_0.p[0] + e2.p[1]*vec_0.p[1] + e2.p[2]*vec_0.p[2] < 1.0e-10 );
   const T dot00 = Dot3(vec0, e0);
   const T dot01 = Dot3(vec0, e1);
-- 
2.43.0


From f5895cac56ea2600c54978369c7d6e8c272f514f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 141/196] fix: Nearest_Plane3_Point3 multiplied two vectors and
 did not compile

---
 include/delfem2/geo_plane.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_plane.cpp b/include/delfem2/geo_plane.cpp
index 94c9f78..eb34902 100644
--- a/include/delfem2/geo_plane.cpp
+++ b/include/delfem2/geo_plane.cpp
@@ -57,7 +57,7 @@ delfem2::CVec3<T> delfem2::Nearest_Plane3_Point3(
   const CVec3<T> &n) // normal
 {
   const CVec3<T> n0 = n.normalized();
-  return p + ((o - p) * n0) * n0;
+  return p + (o - p).dot(n0) * n0;
 }
 
 // -------------------------------------
-- 
2.43.0


From 35f1d4a6acc10c54281625a79acf4c81f98ad80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 142/196] fix: include algorithm for the std::min of
 isIntersectTriPair

---
 include/delfem2/geo_tri.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index a014658..ed532c4 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -7,6 +7,7 @@
 
 #include "delfem2/geo_tri.h"
 
+#include <algorithm>
 #include <cmath>
 #include <stack>
 
-- 
2.43.0


From 3bbeffb6909811c4314f11c2da91135408f965dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 143/196] fix: Nearest_Line3_Point3 with a parameter did not
 compile

---
 include/delfem2/geo_line.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/geo_line.cpp b/include/delfem2/geo_line.cpp
index efdef3b..785017f 100644
--- a/include/delfem2/geo_line.cpp
+++ b/include/delfem2/geo_line.cpp
@@ -168,13 +168,13 @@ delfem2::CVec3<T> delfem2::Nearest_Line3_Point3(
   const CVec3<T> &s, // source
   const CVec3<T> &d) // direction
 {
-  if (Dot(d, d) < 1.0e-20) {
+  if (d.dot(d) < 1.0e-20) {
     t = 0;
     return s;
   }
   const CVec3<T> ps = s - p;
-  double a = Dot(d, d);
-  double b = Dot(d, s - p);
+  double a = d.dot(d);
+  double b = d.dot(s - p);
   t = -b / a;
   return s + t * d;
 }
-- 
2.43.0


From 63f64c8bf9a9833038b6909b4e4ef3b6c1879223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 144/196] fix: ProjectPointOnTriangle did not compile

---
 include/delfem2/geo_tri.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index ed532c4..5193661 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -304,8 +304,8 @@ delfem2::CVec3<T> delfem2::ProjectPointOnTriangle(
     const CVec3<T> &tri_p2,
     const CVec3<T> &tri_p3) {
   CVec3<T> normal = Cross(tri_p2 - tri_p1, tri_p3 - tri_p1);
-  double lenP0ProjectedP0 = Dot(p0 - tri_p1, normal) / Length(normal);
-  CVec3<T> p0ProjectedP0 = -1 * lenP0ProjectedP0 * normal / Length(normal);
+  double lenP0ProjectedP0 = (p0 - tri_p1).dot(normal) / normal.norm();
+  CVec3<T> p0ProjectedP0 = -1 * lenP0ProjectedP0 * normal / normal.norm();
   return p0 + p0ProjectedP0;
 }
 
-- 
2.43.0


From caf38a00eb929b30c1d3e2e160ef192a601463a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 145/196] fix: functions over boxes of points, curves and
 polylines did not compile for 3D vectors

---
 include/delfem2/vec3.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/delfem2/vec3.h b/include/delfem2/vec3.h
index d8ee52e..18a700a 100644
--- a/include/delfem2/vec3.h
+++ b/include/delfem2/vec3.h
@@ -257,6 +257,8 @@ class CVec3 {
   }
 
   using Scalar = T;
+  static constexpr int SizeAtCompileTime = 3;  // size of vector evaluated at compile time
+
   using value_type = Scalar;
   static constexpr T NEARLY_ZERO = static_cast<T>(1.e-16);
 
-- 
2.43.0


From 34bda32a7d62af274c1139b8ff8ddd2583d6d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 146/196] fix: Sample_Polyline and Tangent_Polyline did not
 compile for 3D polylines

---
 include/delfem2/geo_polyline.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/geo_polyline.h b/include/delfem2/geo_polyline.h
index aadac03..1667443 100644
--- a/include/delfem2/geo_polyline.h
+++ b/include/delfem2/geo_polyline.h
@@ -135,7 +135,7 @@ VEC Sample_Polyline(
     typename VEC::Scalar param) {
   using SCALAR = typename VEC::Scalar;
   assert(!polyline.empty());
-  if (polyline.empty()) { return VEC(0, 0); }
+  if (polyline.empty()) { return VEC(); }
   if (param <= 0) { return polyline[0]; }
   if (param >= static_cast<SCALAR>(polyline.size()-1)) {
     return polyline[polyline.size() - 1];
@@ -153,7 +153,7 @@ VEC Tangent_Polyline(
   using SCALAR = typename VEC::Scalar;
   const size_t np = polyline.size();
   assert(np>=2);
-  if (np < 2) { return VEC(0, 0); }
+  if (np < 2) { return VEC(); }
   if (param <= 0) { return polyline[1] - polyline[0]; }
   if (param >= static_cast<SCALAR>(np - 1)) {
     return polyline[np - 1] - polyline[np - 2];
-- 
2.43.0


From 11c0cb9a7622c9abd0c75fa96e0d4ec11c89368f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 147/196] fix: Nearest_Edge3_Line3 took non-parallel lines for
 parallel because of the integer abs

---
 include/delfem2/geo_edge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 952a746..0c311ab 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -317,7 +317,7 @@ void delfem2::Nearest_Edge3_Line3(
   Nearest_Line3_Line3(
     D0, Da0, Db0, Dta0, Dtb0,
     lineseg_start, lineseg_end - lineseg_start, line_origin, line_direction);
-  if (abs(D0) < 1.0e-10) { // pararell
+  if (std::abs(D0) < 1.0e-10) { // pararell
     nearest_lineseg = (lineseg_start + lineseg_end) * static_cast<T>(0.5);
     nearest_line = ::delfem2::Nearest_Line3_Point3<VEC>(
       nearest_lineseg, line_origin, line_direction);
-- 
2.43.0


From b6cad066c64814148a36867d5fbf509ea3711b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 148/196] fix: Coons patches and getCubicBezierCurve called a
 function that does not exist

---
 include/delfem2/geo_curve_cubic.h        |  2 +-
 include/delfem2/geo_surface_parametric.h | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/geo_curve_cubic.h b/include/delfem2/geo_curve_cubic.h
index 6612a0f..5da8b66 100644
--- a/include/delfem2/geo_curve_cubic.h
+++ b/include/delfem2/geo_curve_cubic.h
@@ -146,7 +146,7 @@ void getCubicBezierCurve(
   for (int is = 0; is < ns; is++) {
     for (int i = 0; i < n; i++) {
       double t = (double) i / n;
-      aP[is * n + i] = getPointCubicBezierCurve(
+      aP[is * n + i] = PointOnCubicBezierCurve(
           t,
           aCP[is * 3 + 0],
           aCP[is * 3 + 1],
diff --git a/include/delfem2/geo_surface_parametric.h b/include/delfem2/geo_surface_parametric.h
index ce52a0a..58f26f2 100644
--- a/include/delfem2/geo_surface_parametric.h
+++ b/include/delfem2/geo_surface_parametric.h
@@ -20,18 +20,20 @@
 #include <cstdio>
 #include <vector>
 
+#include "geo_curve_cubic.h"
+
 namespace delfem2 {
 
 template<typename T>
 T getPointCoonsQuad_CubicBezier(
   double u, double v,
   T aP[12]) {
-  T p01u = getPointCubicBezierCurve(u, aP[0], aP[1], aP[2], aP[3]);
-  T p32u = getPointCubicBezierCurve(u, aP[9], aP[8], aP[7], aP[6]);
+  T p01u = PointOnCubicBezierCurve(u, aP[0], aP[1], aP[2], aP[3]);
+  T p32u = PointOnCubicBezierCurve(u, aP[9], aP[8], aP[7], aP[6]);
   T p = (1 - v) * p01u + v * p32u;
   //
-  T q03v = getPointCubicBezierCurve(v, aP[0], aP[11], aP[10], aP[9]);
-  T q12v = getPointCubicBezierCurve(v, aP[3], aP[4], aP[5], aP[6]);
+  T q03v = PointOnCubicBezierCurve(v, aP[0], aP[11], aP[10], aP[9]);
+  T q12v = PointOnCubicBezierCurve(v, aP[3], aP[4], aP[5], aP[6]);
   T q = (1 - u) * q03v + u * q12v;
   //
   T r = (1 - u) * (1 - v) * aP[0]
@@ -65,12 +67,12 @@ template<typename T>
 T getPointCoonsQuad_CubicBezierEdge(
   double u, double v,
   T aP[12]) {
-  T p01u = getPointCubicBezierCurve(u, aP[0], aP[1], aP[2], aP[3]);
-  T p32u = getPointCubicBezierCurve(u, aP[9], aP[8], aP[7], aP[6]);
+  T p01u = PointOnCubicBezierCurve(u, aP[0], aP[1], aP[2], aP[3]);
+  T p32u = PointOnCubicBezierCurve(u, aP[9], aP[8], aP[7], aP[6]);
   T p = (1 - v) * p01u + v * p32u;
   //
-  T q03v = getPointCubicBezierCurve(v, aP[0], aP[11], aP[10], aP[9]);
-  T q12v = getPointCubicBezierCurve(v, aP[3], aP[4], aP[5], aP[6]);
+  T q03v = PointOnCubicBezierCurve(v, aP[0], aP[11], aP[10], aP[9]);
+  T q12v = PointOnCubicBezierCurve(v, aP[3], aP[4], aP[5], aP[6]);
   T q = (1 - u) * q03v + u * q12v;
   T r = (1 - u) * (1 - v) * aP[0]
     + u * (1 - v) * aP[3]
-- 
2.43.0


From 463559c768056de62831776cbfb1eb1351292c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 149/196] fix: FlatKnot was defined in a header without inline

---
 include/delfem2/geo_curve_ndegree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_curve_ndegree.h b/include/delfem2/geo_curve_ndegree.h
index c179010..784974c 100644
--- a/include/delfem2/geo_curve_ndegree.h
+++ b/include/delfem2/geo_curve_ndegree.h
@@ -22,7 +22,7 @@
 
 namespace delfem2 {
 
-void FlatKnot(
+inline void FlatKnot(
   std::vector<double> &aKnotFlat,
   const std::vector<int> &aKnotMulti,
   const std::vector<double> &aKnot) {
-- 
2.43.0


From 69da7df711b575c8a0978ac7d7cf2981d4e9b432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 150/196] fix: Sample_BsplineCurve did not compile for 3D
 curves

---
 include/delfem2/geo_curve_ndegree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/geo_curve_ndegree.h b/include/delfem2/geo_curve_ndegree.h
index 784974c..8d6c1bb 100644
--- a/include/delfem2/geo_curve_ndegree.h
+++ b/include/delfem2/geo_curve_ndegree.h
@@ -138,8 +138,8 @@ VEC Sample_BsplineCurveSegment(
     }
   }
 
-  VEC p(0, 0);
-  for (int i = 0; i < norderplus1; i++) {
+  VEC p = polyloc[0] * weight[0];
+  for (int i = 1; i < norderplus1; i++) {
     p += polyloc[i] * weight[i];
   }
   return p;
-- 
2.43.0


From 27c0f47d82ee7560e78ac23b6fd90206efa151b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 151/196] fix: RootsOfPolynomial lost roots when the polynomial
 has a multiple root at 0

---
 include/delfem2/polynomial_root.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index b183046..7c3bb6d 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -288,6 +288,16 @@ std::vector<double> RootsOfPolynomial(
   const double coe[ndegplus1],
   int num_bisection) {
   static_assert(ndegplus1 >= 1, "degree of polynominal should not be negative");
+  double coe_deflated[ndegplus1];
+  {  // the sturm sequence vanishes at a multiple root at 0. take the factors of t out
+    int num_zero = 0;
+    while (num_zero < ndegplus1 && coe[num_zero] == 0.) { ++num_zero; }
+    const int nshift = (num_zero >= 2 && num_zero < ndegplus1) ? num_zero : 0;
+    for (int i = 0; i < ndegplus1; ++i) {
+      coe_deflated[i] = (i + nshift < ndegplus1) ? coe[i + nshift] : 0.;
+    }
+    coe = coe_deflated;
+  }
   double strum[ndegplus1][ndegplus1];
   SturmSequenceOfPolynomial<ndegplus1>(strum, coe);
   std::vector<std::pair<double, double>> intvls = RootInterval_SturmSequence<ndegplus1>(0, 1, strum);
-- 
2.43.0


From 5ce89c370b866bfd44782167280f09eeed30d8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 152/196] fix: the analytic length of a straight quadratic
 curve that turns back was NaN

---
 include/delfem2/geo_curve_quadratic.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/geo_curve_quadratic.h b/include/delfem2/geo_curve_quadratic.h
index 3b4b2b4..0f51249 100644
--- a/include/delfem2/geo_curve_quadratic.h
+++ b/include/delfem2/geo_curve_quadratic.h
@@ -73,10 +73,13 @@ double Length_QuadraticCurve(
       4 * q1.dot(q2),
       4 * q2.squaredNorm()};
   auto intt = [&coe](double t) -> double {
-    const double tmp0 = (coe[1] + 2 * coe[2] * t) * std::sqrt(coe[0] + t * (coe[1] + coe[2] * t));
+    const double speed = std::sqrt(std::max(coe[0] + t * (coe[1] + coe[2] * t), 0.));
+    const double tmp0 = (coe[1] + 2 * coe[2] * t) * speed;
     const double tmp3 = sqrt(coe[2]);
-    const double tmp1 = coe[1] + 2 * coe[2] * t + 2 * tmp3 * sqrt(coe[0] + t * (coe[1] + coe[2] * t));
-    const double tmp2 = (coe[1] * coe[1] - 4 * coe[0] * coe[2]) * std::log(tmp1);
+    const double tmp1 = coe[1] + 2 * coe[2] * t + 2 * tmp3 * speed;
+    const double det = coe[1] * coe[1] - 4 * coe[0] * coe[2];
+    // the logarithmic term vanishes for a straight curve, where its argument may be zero
+    const double tmp2 = (det < 0. && tmp1 > 0.) ? det * std::log(tmp1) : 0.;
     return tmp0 / (4. * coe[2]) - tmp2 / (8. * coe[2] * tmp3);
   };
   return intt(1) - intt(0);
-- 
2.43.0


From 7cfcaad65a6d4261fc2a7034e8c6106165b507ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 153/196] fix: the nearest parameter was NaN where the
 derivative of the squared distance is stationary

---
 include/delfem2/geo_curve_cubic.h     | 1 +
 include/delfem2/geo_curve_quadratic.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/delfem2/geo_curve_cubic.h b/include/delfem2/geo_curve_cubic.h
index 5da8b66..42da463 100644
--- a/include/delfem2/geo_curve_cubic.h
+++ b/include/delfem2/geo_curve_cubic.h
@@ -226,6 +226,7 @@ typename VEC::Scalar Nearest_CubicBezierCurve(
     SCALAR t0 = t;
     SCALAR dw = s0 + t * (s1 + t * (s2 + t * (s3 + t * (s4 + t * s5))));
     SCALAR ddw = u0 + t * (u1 + t * (u2 + t * (u3 + t * u4)));
+    if (ddw == 0) { break; }
     t -= dw / ddw;
     t = (t < 0) ? 0 : t;
     t = (t > 1) ? 1 : t;
diff --git a/include/delfem2/geo_curve_quadratic.h b/include/delfem2/geo_curve_quadratic.h
index 0f51249..cc9c6f3 100644
--- a/include/delfem2/geo_curve_quadratic.h
+++ b/include/delfem2/geo_curve_quadratic.h
@@ -265,6 +265,7 @@ typename VEC::Scalar Nearest_QuadraticBezierCurve(
     SCALAR t0 = t;
     SCALAR dw = s0 + t * (s1 + t * (s2 + t * s3));
     SCALAR ddw = u0 + t * (u1 + t * u2);
+    if (ddw == 0) { break; }
     t -= dw / ddw;
     t = (t < 0) ? 0 : t;
     t = (t > 1) ? 1 : t;
-- 
2.43.0


From cb3c535caf6a72f412c609926b5f10c9f1e3b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 154/196] fix: the intersection of a cubic Bezier curve and a
 plane was missed when the newton iteration diverges

---
 include/delfem2/geo_curve_cubic.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/geo_curve_cubic.h b/include/delfem2/geo_curve_cubic.h
index 42da463..574941d 100644
--- a/include/delfem2/geo_curve_cubic.h
+++ b/include/delfem2/geo_curve_cubic.h
@@ -120,7 +120,8 @@ bool getParameterCubicBezier_IntersectionWithPlane(
     return true;
   }
   t = 0.5;
-  for (int itr = 0; itr < 10; ++itr) {
+  double t_lo = 0, t_hi = 1; // the heights at these parameters have different signs
+  for (int itr = 0; itr < 100; ++itr) {
     double tp = 1.0 - t;
     double h = t * t * t * h4
         + 3 * t * t * tp * h3
@@ -131,7 +132,9 @@ bool getParameterCubicBezier_IntersectionWithPlane(
         + 3 * t * (2 - 3 * t) * h3
         + 3 * tp * (1 - 3 * t) * h2
         - 3 * tp * tp * h1;
+    if ((h > 0) == (h1 > 0)) { t_lo = t; } else { t_hi = t; }
     t -= (h / dh);
+    if (!(t > t_lo && t < t_hi)) { t = (t_lo + t_hi) / 2; } // bisection when the newton step leaves the interval
   }
   return false;
 }
-- 
2.43.0


From 28fdd5bb73e976c312c07e57f88350e39391800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 155/196] fix: Catmull-Rom spline with two control points read
 outside of the control points

---
 include/delfem2/geo_curve_cubic.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/geo_curve_cubic.h b/include/delfem2/geo_curve_cubic.h
index 574941d..a2be9f0 100644
--- a/include/delfem2/geo_curve_cubic.h
+++ b/include/delfem2/geo_curve_cubic.h
@@ -590,7 +590,9 @@ VEC Sample_CatmullRomSplineCurve(
   const VEC p1 = poly[index];
   const VEC p2 = poly[index + 1];
   VEC m0, m1;
-  if (index == 0) {
+  if (ncp == 2) {
+    return p1 * (1 - t) + p2 * t;
+  } else if (index == 0) {
     assert(index + 2 < ncp);
     const VEC p3 = poly[index + 2];
     m0 = p2 - p1;
-- 
2.43.0


From a00923b46aebf155d5505db24d76c0a925ddaf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 156/196] fix: the triangular Coons patch was NaN at its
 corners

---
 include/delfem2/geo_surface_parametric.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/delfem2/geo_surface_parametric.h b/include/delfem2/geo_surface_parametric.h
index 58f26f2..6190d20 100644
--- a/include/delfem2/geo_surface_parametric.h
+++ b/include/delfem2/geo_surface_parametric.h
@@ -85,6 +85,9 @@ template<typename T>
 T getPointCoonsTri_CubicBezierEdge(
   double u, double v, double w,
   T aP[9]) {
+  if (v + w <= 0) { return aP[0]; }
+  if (w + u <= 0) { return aP[3]; }
+  if (u + v <= 0) { return aP[6]; }
   T peu = PointOnCubicBezierCurve(w / (1 - u), aP[3], aP[4], aP[5], aP[6]);
   T pev = PointOnCubicBezierCurve(u / (1 - v), aP[6], aP[7], aP[8], aP[0]);
   T pew = PointOnCubicBezierCurve(v / (1 - w), aP[0], aP[1], aP[2], aP[3]);
-- 
2.43.0


From 7d4c87b282164874ecddbcad11a3dd601f9dfa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 157/196] fix: a cancelled coefficient in the Sturm sequence
 was left as noise of arbitrary sign

---
 include/delfem2/polynomial_root.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index 7c3bb6d..6cbf90b 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -141,7 +141,9 @@ inline void SturmSequenceOfPolynomial(
         double quotient = poly[k1] / strum[j][k2];
         poly[k1] = 0.;
         for (int l = 1; l <= k2; l++) {
+          const double minuend = poly[k1 - l];
           poly[k1 - l] -= quotient * strum[j][k2 - l];
+          if (std::fabs(poly[k1 - l]) < 1.0e-14 * std::fabs(minuend)) { poly[k1 - l] = 0.; }  // cancellation
         }
       }
     }
-- 
2.43.0


From cd23a564f691f9e65b336671e107c7ec76f8421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 158/196] fix: the products of the deformers with a factor
 scaled the energy but not the constraint penalty

---
 include/delfem2/defarap.cpp | 4 ++--
 include/delfem2/deflap.cpp  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/defarap.cpp b/include/delfem2/defarap.cpp
index 0d0c25d..5f7f3f3 100644
--- a/include/delfem2/defarap.cpp
+++ b/include/delfem2/defarap.cpp
@@ -183,7 +183,7 @@ void delfem2::CDef_ArapEdgeLinearDisponly::MatVec(
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += alpha * weight_bc * vec[i];
   }
 }
 
@@ -297,7 +297,7 @@ void delfem2::CDef_ArapEdge::MatVec(
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += alpha * weight_bc * vec[i];
     //      y[np*3+i] += weight_bc*vec[np*3+i];
   }
 }
diff --git a/include/delfem2/deflap.cpp b/include/delfem2/deflap.cpp
index efb93a8..faecc8d 100644
--- a/include/delfem2/deflap.cpp
+++ b/include/delfem2/deflap.cpp
@@ -182,7 +182,7 @@ void delfem2::CDef_LaplacianLinearGram::MatVec
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += alpha * weight_bc * vec[i];
   }
 }
 
@@ -389,7 +389,7 @@ void delfem2::CDef_LaplacianLinear::MatVec(
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += alpha * weight_bc * vec[i];
   }
 }
 
@@ -566,7 +566,7 @@ void delfem2::CDef_LaplacianLinearDegenerate::MatVec(
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += alpha * weight_bc * vec[i];
   }
 }
 
-- 
2.43.0


From 1f8fbfb7ef4f2d7dfa5fc0be5457470d2fd12f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 159/196] fix: CDef_LaplacianLinearAsym kept the boundary
 condition of the previous deformation

---
 include/delfem2/deflap.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/deflap.cpp b/include/delfem2/deflap.cpp
index faecc8d..c74d7e7 100644
--- a/include/delfem2/deflap.cpp
+++ b/include/delfem2/deflap.cpp
@@ -65,6 +65,7 @@ void delfem2::CDef_LaplacianLinearAsym::Deform(
     std::vector<double> &aXYZ1,
     const std::vector<double> &aXYZ0,
     const std::vector<int> &aBCFlag) {    // ----------
+  defarap::SetLinSys_LaplaceGraph_MeshTri3(mat_A); // the boundary condition of the previous deformation is in the matrix
   aRhs1 = aRhs0;
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-- 
2.43.0


From b7557141f9406e9c1e5b392e385935c62be72b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 160/196] fix: the mean value coordinates of a polygon given as
 vectors did not compile

---
 include/delfem2/cagedef.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/cagedef.h b/include/delfem2/cagedef.h
index ddc3c76..9f3df7b 100644
--- a/include/delfem2/cagedef.h
+++ b/include/delfem2/cagedef.h
@@ -223,11 +223,11 @@ void MeanValueCoordinate_Polygon2(
     VEC v0 = aVtx[iv0] - p;
     VEC v1 = aVtx[iv1] - p;
     VEC v2 = aVtx[iv2] - p;
-    double c01 = (v0 * v1) / (v0.Length() * v1.Length());
-    double c12 = (v1 * v2) / (v1.Length() * v2.Length());
+    double c01 = v0.dot(v1) / (v0.norm() * v1.norm());
+    double c12 = v1.dot(v2) / (v1.norm() * v2.norm());
     double t01 = sqrt((1 - c01) / (1 + c01));
     double t12 = sqrt((1 - c12) / (1 + c12));
-    double w1 = (t01 + t12) / v1.Length();
+    double w1 = (t01 + t12) / v1.norm();
     aW[iv1] = w1;
     sum += w1;
   }
-- 
2.43.0


From 7cf406e6eebef4f534470f720471c5a37b81e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 161/196] fix: shape matching in 3D took the height of the
 deformed points from the rest shape

---
 include/delfem2/pbd_geo3.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/pbd_geo3.cpp b/include/delfem2/pbd_geo3.cpp
index 024e347..5344afc 100644
--- a/include/delfem2/pbd_geo3.cpp
+++ b/include/delfem2/pbd_geo3.cpp
@@ -122,7 +122,8 @@ DFM2_INLINE void delfem2::PBD_ConstProj_Rigid3D(
     CVec3d pc(0, 0, 0), qc(0, 0, 0);
     for (int iip = clstr_ind[iclstr]; iip < clstr_ind[iclstr + 1]; iip++) {
       const int ip = clstr[iip];
-      assert(ip < nclstr0);
+      assert(iip < nclstr0);
+      assert(ip < nXYZ0);
       qc += CVec3d(aXYZ0[ip * 3 + 0], aXYZ0[ip * 3 + 1], aXYZ0[ip * 3 + 2]);
       pc += CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZt[ip * 3 + 2]);
     }
@@ -133,7 +134,7 @@ DFM2_INLINE void delfem2::PBD_ConstProj_Rigid3D(
     for (int iip = clstr_ind[iclstr]; iip < clstr_ind[iclstr + 1]; iip++) {
       const int ip = clstr[iip];
       const CVec3d dq = CVec3d(aXYZ0[ip * 3 + 0], aXYZ0[ip * 3 + 1], aXYZ0[ip * 3 + 2]) - qc; // undeform
-      const CVec3d dp = CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZ0[ip * 3 + 2]) - pc; // deform
+      const CVec3d dp = CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZt[ip * 3 + 2]) - pc; // deform
       A[0 * 3 + 0] += dp[0] * dq[0];
       A[0 * 3 + 1] += dp[0] * dq[1];
       A[0 * 3 + 2] += dp[0] * dq[2];
-- 
2.43.0


From ba5883167bf79af3b8be480acf781f44fd68be69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 162/196] fix: a corner exactly on an edge of a planar rigid
 body was matched with another edge

---
 include/delfem2/rgd_v2m3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/rgd_v2m3.cpp b/include/delfem2/rgd_v2m3.cpp
index c3d6f06..2ed0c58 100644
--- a/include/delfem2/rgd_v2m3.cpp
+++ b/include/delfem2/rgd_v2m3.cpp
@@ -48,7 +48,7 @@ bool Nearest_Polygon2(
     double re0 = (pe-p0).norm()/(p1-p0).norm();
     const CVec2d ne = (p1 - p0).Rotate(-M_PI * 0.5).normalized();
     const double dist0 = (pe-q).norm();
-    if( min_dist > 0 && dist0 > min_dist ){ continue; }
+    if( min_dist >= 0 && dist0 > min_dist ){ continue; }
     //
     min_dist = dist0;
     ie_near = iej;
-- 
2.43.0


From ad9841097bac36d790bf024d42d9c1fdd89a6138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 163/196] fix: EnergyKinetic was defined once per translation
 unit

---
 include/delfem2/kinetic_damping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/kinetic_damping.h b/include/delfem2/kinetic_damping.h
index 1c30b99..130fa6a 100644
--- a/include/delfem2/kinetic_damping.h
+++ b/include/delfem2/kinetic_damping.h
@@ -9,7 +9,7 @@
 
 namespace delfem2 {
 
-double EnergyKinetic(
+inline double EnergyKinetic(
     const double *aUVW,
     size_t np) {
   double E = 0.0;
-- 
2.43.0


From 0e1403435e691039af64cd045de5e3bd28434557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 164/196] fix: MakeOneTetSurNo wrote out of range for removed
 tetrahedra

---
 include/delfem2/dtet_v3.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/dtet_v3.cpp b/include/delfem2/dtet_v3.cpp
index 8bcda19..049a6f6 100644
--- a/include/delfem2/dtet_v3.cpp
+++ b/include/delfem2/dtet_v3.cpp
@@ -890,6 +890,7 @@ bool delfem2::MakeOneTetSurNo
 	}
 
 	for(unsigned int itet=0;itet<tet.size();itet++){
+		if( !tet[itet].isActive() ){ continue; }
 		for(unsigned int ipotet=0;ipotet<npotet;ipotet++){
 			point[ tet[itet].v[ipotet] ].e = itet;
 			point[ tet[itet].v[ipotet] ].poel = ipotet;
-- 
2.43.0


From f459308d46416bceea0436dbd3ba1adba7bc753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 165/196] fix: interpolation on a grid extrapolated at
 positions outside the grid

---
 include/delfem2/fdm_array2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/fdm_array2.h b/include/delfem2/fdm_array2.h
index 44261aa..3f34b8c 100644
--- a/include/delfem2/fdm_array2.h
+++ b/include/delfem2/fdm_array2.h
@@ -77,8 +77,8 @@ double LinearInterpolationOnGrid2(
   double v10 = data(i + 1, j + 0)[idim];
   double v01 = data(i + 0, j + 1)[idim];
   double v11 = data(i + 1, j + 1)[idim];
-  double rx = x - i;
-  double ry = y - j;
+  double rx = x1 - i;
+  double ry = y1 - j;
   return (1 - rx) * (1 - ry) * v00 + rx * (1 - ry) * v10 + (1 - rx) * ry * v01 + rx * ry * v11;
 }
 
-- 
2.43.0


From 84306288255e090671cae31058021c5cbe09a612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 166/196] fix: SampleHemisphereZupUniform did not compile

---
 include/delfem2/sampling.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/sampling.h b/include/delfem2/sampling.h
index 3a62c90..a771d67 100644
--- a/include/delfem2/sampling.h
+++ b/include/delfem2/sampling.h
@@ -107,9 +107,9 @@ template<typename T>
 inline std::array<T, 3> SampleHemisphereZupUniform(
     const std::array<T, 2> &v2) {
   auto z = v2[0];
-  auto r = std::sqrt(std::clamp(1 - z * z, 0, 1));
-  auto phi = 2 * M_PI * v2[1];
-  return {r * cos(phi), r * sin(phi), z};
+  auto r = std::sqrt(std::clamp<T>(1 - z * z, 0, 1));
+  auto phi = static_cast<T>(2 * M_PI) * v2[1];
+  return {r * std::cos(phi), r * std::sin(phi), z};
 }
 
 // Sample an hemispherical direction with cosine distribution.
-- 
2.43.0


From 434708afde46010d7fae75132662e0d913c32c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:58 +0000
Subject: [PATCH 167/196] fix: Perlin noise had kinks along the lattice lines

---
 include/delfem2/noise.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/delfem2/noise.h b/include/delfem2/noise.h
index 1afa41f..a424c08 100644
--- a/include/delfem2/noise.h
+++ b/include/delfem2/noise.h
@@ -66,9 +66,9 @@ double noise_perlin_2d
   const int ig_ab = aP[aP[ix0]+iy1];
   const int ig_bb = aP[aP[ix1]+iy1];
   double gaa = grad2(  ux,  uy, ig_aa,aGrad);
-  double gba = grad2(1-ux,  uy, ig_ba,aGrad);
-  double gab = grad2(  ux,1-uy, ig_ab,aGrad);
-  double gbb = grad2(1-ux,1-uy, ig_bb,aGrad);
+  double gba = grad2(ux-1,  uy, ig_ba,aGrad);
+  double gab = grad2(  ux,uy-1, ig_ab,aGrad);
+  double gbb = grad2(ux-1,uy-1, ig_bb,aGrad);
   double fux = fade(ux);
   double fuy = fade(uy);
   //  std::cout << fux << " " << fuy << std::endl;
@@ -104,13 +104,13 @@ double noise_perlin_3d(
   const int ig_abb = aP[aP[aP[ix0]+iy1]+iz1];
   const int ig_bbb = aP[aP[aP[ix1]+iy1]+iz1];
   double gaaa = grad3(  ux,  uy,  uz, ig_aaa,aGrad);
-  double gbaa = grad3(1-ux,  uy,  uz, ig_baa,aGrad);
-  double gaba = grad3(  ux,1-uy,  uz, ig_aba,aGrad);
-  double gbba = grad3(1-ux,1-uy,  uz, ig_bba,aGrad);
-  double gaab = grad3(  ux,  uy,1-uz, ig_aab,aGrad);
-  double gbab = grad3(1-ux,  uy,1-uz, ig_bab,aGrad);
-  double gabb = grad3(  ux,1-uy,1-uz, ig_abb,aGrad);
-  double gbbb = grad3(1-ux,1-uy,1-uz, ig_bbb,aGrad);
+  double gbaa = grad3(ux-1,  uy,  uz, ig_baa,aGrad);
+  double gaba = grad3(  ux,uy-1,  uz, ig_aba,aGrad);
+  double gbba = grad3(ux-1,uy-1,  uz, ig_bba,aGrad);
+  double gaab = grad3(  ux,  uy,uz-1, ig_aab,aGrad);
+  double gbab = grad3(ux-1,  uy,uz-1, ig_bab,aGrad);
+  double gabb = grad3(  ux,uy-1,uz-1, ig_abb,aGrad);
+  double gbbb = grad3(ux-1,uy-1,uz-1, ig_bbb,aGrad);
   double fux = fade(ux);
   double fuy = fade(uy);
   double fuz = fade(uz);
-- 
2.43.0


From 9101b264391867678d7009e208d57991e166b60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 168/196] fix: the spherical harmonics of degree 9 and order 8
 had the wrong sign

---
 include/delfem2/specialfuncs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/specialfuncs.cpp b/include/delfem2/specialfuncs.cpp
index be53b69..0ff5063 100644
--- a/include/delfem2/specialfuncs.cpp
+++ b/include/delfem2/specialfuncs.cpp
@@ -211,7 +211,7 @@ DFM2_INLINE void delfem2::makeArray_SphericalHarmonics(
     double v5=-3.0/256*sqrt(2717*invpi)*(85*z4-30*z2+1); //5
     double v6=+1.0/128*sqrt(40755*invpi)*z*(17*z2-3); //6
     double v7=-3.0/512*sqrt(13585*invpi)*(17*z2-1); //7
-    double v8=-3.0/512*sqrt(230945*2*invpi)*z; //7
+    double v8=+3.0/512*sqrt(230945*2*invpi)*z; //7
     double v9=-1.0/512*sqrt(230945*invpi); //7
     Y[81] = v9*i9;
     Y[82] = v8*i8;
-- 
2.43.0


From 571f9647f8b731a6cc6269e221f64ebe44780f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 169/196] fix: random sampling on a mesh failed for draws
 exactly on the boundary between triangles

---
 include/delfem2/sampler_trimesh.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/sampler_trimesh.h b/include/delfem2/sampler_trimesh.h
index b7bcfba..6238eab 100644
--- a/include/delfem2/sampler_trimesh.h
+++ b/include/delfem2/sampler_trimesh.h
@@ -40,14 +40,14 @@ class RandomSamplingOnMeshTri3 {
     double a0 = val01 * cumulative_area_sum[ntri];
     unsigned int itri_l = 0, itri_u = ntri;
     for (;;) {
-      assert(cumulative_area_sum[itri_l] < a0);
+      assert(cumulative_area_sum[itri_l] <= a0);
       assert(a0 < cumulative_area_sum[itri_u]);
       unsigned int itri_h = (itri_u + itri_l) / 2;
       if (itri_u - itri_l == 1) { break; }
-      if (cumulative_area_sum[itri_h] < a0) { itri_l = itri_h; }
+      if (cumulative_area_sum[itri_h] <= a0) { itri_l = itri_h; }
       else { itri_u = itri_h; }
     }
-    assert(cumulative_area_sum[itri_l] < a0);
+    assert(cumulative_area_sum[itri_l] <= a0);
     assert(a0 < cumulative_area_sum[itri_l + 1]);
     double r0 = (a0 - cumulative_area_sum[itri_l]) / (cumulative_area_sum[itri_l + 1] - cumulative_area_sum[itri_l]);
     double r1 = dist_01(rndeng);
@@ -97,14 +97,14 @@ class RandomSamplingOnMeshTri3Selective {
     double a0 = val01 * cumulative_area_sum[num_flaggedtri];
     unsigned int itri_l = 0, itri_u = num_flaggedtri;
     for (;;) {
-      assert(cumulative_area_sum[itri_l] < a0);
+      assert(cumulative_area_sum[itri_l] <= a0);
       assert(a0 < cumulative_area_sum[itri_u]);
       unsigned int itri_h = (itri_u + itri_l) / 2;
       if (itri_u - itri_l == 1) { break; }
-      if (cumulative_area_sum[itri_h] < a0) { itri_l = itri_h; }
+      if (cumulative_area_sum[itri_h] <= a0) { itri_l = itri_h; }
       else { itri_u = itri_h; }
     }
-    assert(cumulative_area_sum[itri_l] < a0);
+    assert(cumulative_area_sum[itri_l] <= a0);
     assert(a0 < cumulative_area_sum[itri_l + 1]);
     double r0 = (a0 - cumulative_area_sum[itri_l]) / (cumulative_area_sum[itri_l + 1] - cumulative_area_sum[itri_l]);
     double r1 = dist_01(rndeng);
-- 
2.43.0


From b268e689ba84cfa05ccd146a9fbe93bf762ec37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 170/196] fix: continuous collision detection missed contacts
 at the later of several coplanar times

---
 include/delfem2/geo_ccd.cpp                 | 132 ++++++++++----------
 include/delfem2/geo_ccd.h                   |  11 ++
 include/delfem2/srch_selfintersection_bvh.h |  32 ++---
 3 files changed, 96 insertions(+), 79 deletions(-)

diff --git a/include/delfem2/geo_ccd.cpp b/include/delfem2/geo_ccd.cpp
index b6c8009..7527bf9 100644
--- a/include/delfem2/geo_ccd.cpp
+++ b/include/delfem2/geo_ccd.cpp
@@ -187,10 +187,10 @@ DFM2_INLINE double delfem2::Nearest_LineSeg_LineSeg_CCD_Iteration(
 
 
 
-// compute time where four points gets coplaner
+// compute times where four points get coplaner
 template<typename T>
-bool delfem2::FindCoplanerInterp(
-  double &r,
+unsigned int delfem2::FindCoplanerInterps(
+  double aTime[4],
   const CVec3<T> &s0,
   const CVec3<T> &s1,
   const CVec3<T> &s2,
@@ -212,57 +212,58 @@ bool delfem2::FindCoplanerInterp(
   const T k2 = ScalarTripleProduct(v3, v1, x2) + ScalarTripleProduct(v3, x1, v2) + ScalarTripleProduct(x3, v1, v2);
   const T k3 = ScalarTripleProduct(v3, v1, v2);
   // cubic funciton is f(x) = k0 + k1*x + k2*x^2 + k3*x^3
-  const T r0 = +0.0;
-  const T r1 = +1.0;
-  const T f0 = lcl::EvaluateCubic(r0, k0, k1, k2, k3);
-  const T f1 = lcl::EvaluateCubic(r1, k0, k1, k2, k3);
-  if (f0 * f1 <= 0) {
-    r = lcl::FindRootCubic_Bisect(r0, r1, f0, f1, k0, k1, k2, k3);
-    return true;
-  }
+  // split the time where the function takes an extreme value such that it is monotonic in each of the intervals
+  double aSplit[4] = {0.0};
+  unsigned int nsplit = 1;
   if (fabs(k3) > 1.0e-30) { // cubic function
     const double det = k2 * k2 - 3 * k1 * k3; // if det > 0, the cubic function takes extreme value
-    if (det < 0) { return false; } // monotonus function
-    //
-    const double r3 = (-k2 - sqrt(det)) / (3 * k3); // smaller extreme value
-    if (r3 > 0 && r3 < 1) {
-      const double f3 = lcl::EvaluateCubic(r3, k0, k1, k2, k3);
-      if (f3 == 0) {
-        r = r3;
-        return true;
-      }
-      if (f0 * f3 < 0) {
-        r = lcl::FindRootCubic_Bisect(r0, r3, f0, f3, k0, k1, k2, k3);
-        return true;
-      }
-    }
-    const double r4 = (-k2 + sqrt(det)) / (3 * k3); // larger extreme value
-    if (r4 > 0 && r4 < 1) {
-      const double f4 = lcl::EvaluateCubic(r4, k0, k1, k2, k3);
-      if (f4 == 0) {
-        r = r4;
-        return true;
-      }
-      if (f0 * f4 < 0) {
-        r = lcl::FindRootCubic_Bisect(r0, r4, f0, f4, k0, k1, k2, k3);
-        return true;
+    if (det > 0) {
+      const double r3 = (-k2 - sqrt(det)) / (3 * k3);
+      const double r4 = (-k2 + sqrt(det)) / (3 * k3);
+      const double r34[2] = {r3 < r4 ? r3 : r4, r3 < r4 ? r4 : r3};
+      for (double r: r34) {
+        if (r > 0 && r < 1) { aSplit[nsplit++] = r; }
       }
     }
-    return false;
+  } else if (fabs(k2) > 1.0e-30) { // quadric function
+    const double r2 = -k1 / (2 * k2); // extreme valuse
+    if (r2 > 0 && r2 < 1) { aSplit[nsplit++] = r2; }
   }
+  aSplit[nsplit] = 1.0;
   //
-  if (fabs(k2) > 1.0e-30) { // quadric function
-    const double r2 = -k1 / (2 * k2); // extreme valuse
-    if (r2 > 0 && r2 < 1) {
-      const double f2 = lcl::EvaluateCubic(r2, k0, k1, k2, k3);
-      if (f0 * f2 < 0) {
-        r = lcl::FindRootCubic_Bisect(r0, r2, f0, f2, k0, k1, k2, k3);
-        return true;
-      }
+  unsigned int ntime = 0;
+  double f0 = k0;
+  if (f0 == 0) { aTime[ntime++] = 0.0; }
+  for (unsigned int isplit = 0; isplit < nsplit; ++isplit) {
+    const double r0 = aSplit[isplit];
+    const double r1 = aSplit[isplit + 1];
+    const double f1 = lcl::EvaluateCubic<double>(r1, k0, k1, k2, k3);
+    if (f1 == 0) {
+      aTime[ntime++] = r1;
+    } else if (f0 * f1 < 0) {
+      aTime[ntime++] = lcl::FindRootCubic_Bisect(r0, r1, f0, f1, k0, k1, k2, k3);
     }
-    return false;
+    f0 = f1;
   }
-  return false;
+  return ntime;
+}
+
+// compute the first time where four points gets coplaner
+template<typename T>
+bool delfem2::FindCoplanerInterp(
+  double &r,
+  const CVec3<T> &s0,
+  const CVec3<T> &s1,
+  const CVec3<T> &s2,
+  const CVec3<T> &s3,
+  const CVec3<T> &e0,
+  const CVec3<T> &e1,
+  const CVec3<T> &e2,
+  const CVec3<T> &e3) {
+  double aTime[4];
+  if (FindCoplanerInterps(aTime, s0, s1, s2, s3, e0, e1, e2, e3) == 0) { return false; }
+  r = aTime[0];
+  return true;
 }
 
 // CCDのFVで接触する要素を検出
@@ -307,27 +308,32 @@ bool delfem2::IsContact_FV_CCD2(
       if (dist01 > max_app && dist12 > max_app && dist20 > max_app) { return false; }
     }
   }
-  double t;
-  {
-    bool res = FindCoplanerInterp(
-      t,
-      p0, p1, p2, p3, q0, q1, q2, q3);
-    if (!res) return false;
+  double aTime[4];
+  const unsigned int ntime = FindCoplanerInterps(
+    aTime,
+    p0, p1, p2, p3, q0, q1, q2, q3);
+  for (unsigned int itime = 0; itime < ntime; ++itime) {
+    const double t = aTime[itime];
     assert(t >= 0 && t <= 1);
+    CVec3<T> p0m = (1 - t) * p0 + t * q0;
+    CVec3<T> p1m = (1 - t) * p1 + t * q1;
+    CVec3<T> p2m = (1 - t) * p2 + t * q2;
+    CVec3<T> p3m = (1 - t) * p3 + t * q3;
+    double w0, w1;
+    DistanceFaceVertex(p0m, p1m, p2m, p3m, w0, w1);
+    double w2 = 1 - w0 - w1;
+    if (w0 < 0 || w0 > 1) continue;
+    if (w1 < 0 || w1 > 1) continue;
+    if (w2 < 0 || w2 > 1) continue;
+    return true;
   }
-  CVec3<T> p0m = (1 - t) * p0 + t * q0;
-  CVec3<T> p1m = (1 - t) * p1 + t * q1;
-  CVec3<T> p2m = (1 - t) * p2 + t * q2;
-  CVec3<T> p3m = (1 - t) * p3 + t * q3;
-  double w0, w1;
-  DistanceFaceVertex(p0m, p1m, p2m, p3m, w0, w1);
-  double w2 = 1 - w0 - w1;
-  if (w0 < 0 || w0 > 1) return false;
-  if (w1 < 0 || w1 > 1) return false;
-  if (w2 < 0 || w2 > 1) return false;
-  return true;
+  return false;
 }
 #ifdef DFM2_STATIC_LIBRARY
+template unsigned int delfem2::FindCoplanerInterps(
+  double aTime[4],
+  const CVec3d &s0, const CVec3d &s1, const CVec3d &s2, const CVec3d &s3,
+  const CVec3d &e0, const CVec3d &e1, const CVec3d &e2, const CVec3d &e3);
 template bool delfem2::IsContact_FV_CCD2(
   int ino0,
   int ino1,
diff --git a/include/delfem2/geo_ccd.h b/include/delfem2/geo_ccd.h
index fe34dc2..8db1eca 100644
--- a/include/delfem2/geo_ccd.h
+++ b/include/delfem2/geo_ccd.h
@@ -21,6 +21,17 @@
 
 namespace delfem2 {
 
+/**
+ * @brief times in [0,1] where the four linearly moving points get coplanar
+ * @param[out] aTime times in the ascending order
+ * @return number of the times
+ */
+template<typename T>
+unsigned int FindCoplanerInterps(
+    double aTime[4],
+    const CVec3<T> &s0, const CVec3<T> &s1, const CVec3<T> &s2, const CVec3<T> &s3,
+    const CVec3<T> &e0, const CVec3<T> &e1, const CVec3<T> &e2, const CVec3<T> &e3);
+
 template<typename T>
 bool FindCoplanerInterp(
     double &r,
diff --git a/include/delfem2/srch_selfintersection_bvh.h b/include/delfem2/srch_selfintersection_bvh.h
index e56c482..7da4648 100644
--- a/include/delfem2/srch_selfintersection_bvh.h
+++ b/include/delfem2/srch_selfintersection_bvh.h
@@ -177,27 +177,27 @@ bool delfem2::IsContact_EE_CCD
   bbp.AddPoint(p1e.data(), eps);
   if( !bbp.IsIntersect(bbq) ) return false;
   //
-  double t;
-  {
-    const bool res = FindCoplanerInterp(
-      t,
+  double aTime[4];
+  const unsigned int ntime = FindCoplanerInterps(
+      aTime,
       p0s,p1s,q0s,q1s, p0e,p1e,q0e,q1e);
-    if( !res ) return false;
+  for(unsigned int itime=0;itime<ntime;++itime){
+    const double t = aTime[itime];
     assert( t >= 0 && t <= 1 );
+    CVec3d p0m = (1-t)*p0s + t*p0e;
+    CVec3d p1m = (1-t)*p1s + t*p1e;
+    CVec3d q0m = (1-t)*q0s + t*q0e;
+    CVec3d q1m = (1-t)*q1s + t*q1e;
+    double w0,w1;
+    double dist = Distance_Edge3_Edge3(p0m, p1m, q0m, q1m, w0,w1);
+    if( w0 < 0 || w0 > 1 ) continue;
+    if( w1 < 0 || w1 > 1 ) continue;
+    if( dist > 1.0e-2 ) continue;
+    return true;
   }
-  CVec3d p0m = (1-t)*p0s + t*p0e;
-  CVec3d p1m = (1-t)*p1s + t*p1e;
-  CVec3d q0m = (1-t)*q0s + t*q0e;
-  CVec3d q1m = (1-t)*q1s + t*q1e;
-  double w0,w1;
-  double dist = Distance_Edge3_Edge3(p0m, p1m, q0m, q1m, w0,w1);
-  if( w0 < 0 || w0 > 1 ) return false;
-  if( w1 < 0 || w1 > 1 ) return false;
-  if( dist > 1.0e-2 ) return false;
-  return true;
+  return false;
 }
 
-
 // ---------------------
 
 namespace delfem2 {
-- 
2.43.0


From 4ec592cfce4c647e1157559bb48d357873c0dad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 171/196] fix: wrong Hessian in the nearest point iteration of
 moving edges

---
 include/delfem2/geo_ccd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_ccd.cpp b/include/delfem2/geo_ccd.cpp
index 7527bf9..aea79c5 100644
--- a/include/delfem2/geo_ccd.cpp
+++ b/include/delfem2/geo_ccd.cpp
@@ -163,7 +163,7 @@ DFM2_INLINE double delfem2::Nearest_LineSeg_LineSeg_CCD_Iteration(
     double R[3] = {v0.dot(ds), v0.dot(dt), v0.dot(du)};
     double A[9] = {
       ds.dot(ds), ds.dot(dt), ds.dot(du) + v0.dot(dsu),
-      dt.dot(ds), dt.dot(dt), dt.dot(du) * v0.dot(dtu),
+      dt.dot(ds), dt.dot(dt), dt.dot(du) + v0.dot(dtu),
       du.dot(ds) + v0.dot(dsu), du.dot(dt) + v0.dot(dtu), du.dot(du)};
     {
       double eps = (A[0] + A[4] + A[8]) * 1.0e-10 + 1.0e-20;
-- 
2.43.0


From 4e41a92aa9ec49c2844fd262e89e66e196532352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 172/196] fix: a face-vertex and an edge-edge contact of the
 same points were taken for the same

---
 include/delfem2/srch_selfintersection_bvh.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/srch_selfintersection_bvh.h b/include/delfem2/srch_selfintersection_bvh.h
index 7da4648..9ec95a2 100644
--- a/include/delfem2/srch_selfintersection_bvh.h
+++ b/include/delfem2/srch_selfintersection_bvh.h
@@ -234,6 +234,7 @@ public:
   }
   bool operator < (const CContactElement& p2) const
   {
+    if( is_fv != p2.is_fv ){ return p2.is_fv; }
     if( ino0 != p2.ino0 ){ return ino0 < p2.ino0; }
     if( ino1 != p2.ino1 ){ return ino1 < p2.ino1; }
     if( ino2 != p2.ino2 ){ return ino2 < p2.ino2; }
-- 
2.43.0


From a7c78c63b02eaf4f78034ff2935e000e523cc4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 173/196] fix: proximity detection culled with the bounding box
 of another element

---
 include/delfem2/srch_selfintersection_bvh.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/srch_selfintersection_bvh.h b/include/delfem2/srch_selfintersection_bvh.h
index 9ec95a2..4d71b02 100644
--- a/include/delfem2/srch_selfintersection_bvh.h
+++ b/include/delfem2/srch_selfintersection_bvh.h
@@ -296,22 +296,22 @@ void delfem2::GetContactElement_Proximity
     const CVec3d q0(aXYZ[jn0*3+0], aXYZ[jn0*3+1], aXYZ[jn0*3+2]);
     const CVec3d q1(aXYZ[jn1*3+0], aXYZ[jn1*3+1], aXYZ[jn1*3+2]);
     const CVec3d q2(aXYZ[jn2*3+0], aXYZ[jn2*3+1], aXYZ[jn2*3+2]);
-    if( IsContact_FV_Proximity(   in0,in1,in2,jn0, p0,p1,p2,q0, aBB[ichild0_0], delta) ){
+    if( IsContact_FV_Proximity(   in0,in1,in2,jn0, p0,p1,p2,q0, aBB[ibvh0], delta) ){
       aContactElem.insert( CContactElement(true,    in0,in1,in2,jn0) );
     }
-    if( IsContact_FV_Proximity(   in0,in1,in2,jn1, p0,p1,p2,q1, aBB[ichild0_0], delta) ){
+    if( IsContact_FV_Proximity(   in0,in1,in2,jn1, p0,p1,p2,q1, aBB[ibvh0], delta) ){
       aContactElem.insert( CContactElement(true,    in0,in1,in2,jn1) );
     }
-    if( IsContact_FV_Proximity(   in0,in1,in2,jn2, p0,p1,p2,q2, aBB[ichild0_0], delta) ){
+    if( IsContact_FV_Proximity(   in0,in1,in2,jn2, p0,p1,p2,q2, aBB[ibvh0], delta) ){
       aContactElem.insert( CContactElement(true,    in0,in1,in2,jn2) );
     }
-    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in0, q0,q1,q2,p0, aBB[ichild1_0], delta) ){
+    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in0, q0,q1,q2,p0, aBB[ibvh1], delta) ){
       aContactElem.insert( CContactElement(true,    jn0,jn1,jn2,in0) );
     }
-    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in1, q0,q1,q2,p1, aBB[ichild1_0], delta) ){
+    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in1, q0,q1,q2,p1, aBB[ibvh1], delta) ){
       aContactElem.insert( CContactElement(true,    jn0,jn1,jn2,in1) );
     }
-    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in2, q0,q1,q2,p2, aBB[ichild1_0], delta) ){
+    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in2, q0,q1,q2,p2, aBB[ibvh1], delta) ){
       aContactElem.insert( CContactElement(true,    jn0,jn1,jn2,in2) );
     }
     ////
-- 
2.43.0


From 7bd5c7b248426f4554a58e38c9e460c260c50501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 174/196] fix: proximity detection missed points outside of the
 bounding box of the triangle

---
 include/delfem2/srch_selfintersection_bvh.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/srch_selfintersection_bvh.h b/include/delfem2/srch_selfintersection_bvh.h
index 4d71b02..8c954ad 100644
--- a/include/delfem2/srch_selfintersection_bvh.h
+++ b/include/delfem2/srch_selfintersection_bvh.h
@@ -140,7 +140,11 @@ bool delfem2::IsContact_FV_Proximity
  const double delta)
 {
   if( ino3 == ino0 || ino3 == ino1 || ino3 == ino2 ){ return false; }
-  if( !bb.isInclude_Point(p3.x,p3.y,p3.z) ) return false;
+  { // culling
+    BBOX bbp;
+    bbp.AddPoint(p3.data(), delta);
+    if( !bb.IsIntersect(bbp) ) return false;
+  }
   double height = fabs( Height_Tet(p0,p1,p2,p3) );
   if( height > delta ) return false;
   double w0,w1;
-- 
2.43.0


From d40446c212df358698e3c7b05670e88b525aa095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 175/196] fix: rigid impact zones used the velocity in place of
 the position for the inertia

---
 include/delfem2/cloth_selfcollision.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/cloth_selfcollision.cpp b/include/delfem2/cloth_selfcollision.cpp
index a2d4a6c..44f3fce 100755
--- a/include/delfem2/cloth_selfcollision.cpp
+++ b/include/delfem2/cloth_selfcollision.cpp
@@ -332,9 +332,9 @@ void ApplyRigidImpactZone
       dfm2::CVec3d v(aUVWm0[ino*3+0],aUVWm0[ino*3+1],aUVWm0[ino*3+2]);
       L += Cross(p-gc,v-av);
       dfm2::CVec3d q = p-gc;
-      I[0] += v.dot(v) - q[0]*q[0];  I[1] +=          - q[0]*q[1];  I[2] +=          - q[0]*q[2];
-      I[3] +=          - q[1]*q[0];  I[4] += v.dot(v) - q[1]*q[1];  I[5] +=          - q[1]*q[2];
-      I[6] +=          - q[2]*q[0];  I[7] +=          - q[2]*q[1];  I[8] += v.dot(v) - q[2]*q[2];
+      I[0] += q.dot(q) - q[0]*q[0];  I[1] +=          - q[0]*q[1];  I[2] +=          - q[0]*q[2];
+      I[3] +=          - q[1]*q[0];  I[4] += q.dot(q) - q[1]*q[1];  I[5] +=          - q[1]*q[2];
+      I[6] +=          - q[2]*q[0];  I[7] +=          - q[2]*q[1];  I[8] += q.dot(q) - q[2]*q[2];
     }
     // 角速度を求める
     double Iinv[9];
-- 
2.43.0


From 36de798072d3d9089787aca981b428c385d2a89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 176/196] fix: isosurface stuffing missed the +x face point of
 cells with children at +x only

---
 include/delfem2/isrf_iss.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/isrf_iss.cpp b/include/delfem2/isrf_iss.cpp
index a0aa66f..dea877c 100644
--- a/include/delfem2/isrf_iss.cpp
+++ b/include/delfem2/isrf_iss.cpp
@@ -1841,7 +1841,7 @@ DFM2_INLINE void addEdgeFacePoints(
         icaXc4 = ca.aIC_Cld[4];
         icaXc6 = ca.aIC_Cld[6];
       }
-      if (icc0 >= 0 || icc2 >= 0 || icc4 >= 0 || icc6 >= 0 || icaXc0 >= 0 || icaXc2 >= 0 || icaXc4 >= 0
+      if (icc1 >= 0 || icc3 >= 0 || icc5 >= 0 || icc7 >= 0 || icaXc0 >= 0 || icaXc2 >= 0 || icaXc4 >= 0
           || icaXc6 >= 0) {
         int ip0 = (int) aPoint.size();
         double x0 = aPoint[c.aIP[26]].pos[0] + c.size * 0.5;
-- 
2.43.0


From 197cf97e3de2723eeab0e1e2e9fe261eb431081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 177/196] fix: adaptive distance field returned the distance
 from the cell center on cell faces

---
 include/delfem2/isrf_adf.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/isrf_adf.cpp b/include/delfem2/isrf_adf.cpp
index b3886cf..c1be9aa 100644
--- a/include/delfem2/isrf_adf.cpp
+++ b/include/delfem2/isrf_adf.cpp
@@ -696,9 +696,10 @@ double delfem2::AdaptiveDistanceField3::CNode::FindDistNormal
      double n[3],
      const std::vector<CNode> &aNo) const // normal outward
 {
-  if (fabs(px - cent_[0]) >= hw_
-      || fabs(py - cent_[1]) >= hw_
-      || fabs(pz - cent_[2]) >= hw_) {
+  const double eps_hw = hw_ * (1 + 1.0e-10); // points on the faces belong to the node, also up to rounding
+  if (fabs(px - cent_[0]) > eps_hw
+      || fabs(py - cent_[1]) > eps_hw
+      || fabs(pz - cent_[2]) > eps_hw) {
     n[0] = px - cent_[0];
     n[1] = py - cent_[1];
     n[2] = pz - cent_[2];
-- 
2.43.0


From c3386469de74959f697f90b8a7e9501cc47604c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 178/196] fix: isosurface stuffing lattice was not conforming
 where bisected edges lie on its outer boundary

---
 include/delfem2/isrf_iss.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/delfem2/isrf_iss.cpp b/include/delfem2/isrf_iss.cpp
index dea877c..ad40707 100644
--- a/include/delfem2/isrf_iss.cpp
+++ b/include/delfem2/isrf_iss.cpp
@@ -2016,6 +2016,25 @@ DFM2_INLINE void makeTetLattice(
           if (c.iparent >= 0) {
             iptn = halfPyramidPtn[c.iparent_pos][iface];
           }
+          // points around the face, starting from an edge point if there is any
+          std::vector<int> aIpFace;
+          for (int i = 0; i < 4 && aIpFace.empty(); ++i) {
+            if (c.aIP[edgePointFace[iface][i]] == -1) { continue; }
+            for (int j = i; j < i + 4; ++j) {
+              const int ip_em = c.aIP[edgePointFace[iface][j % 4]];
+              if (ip_em != -1) { aIpFace.push_back(ip_em); }
+              aIpFace.push_back(c.aIP[faceHex[iface][(j + 1) % 4]]);
+            }
+          }
+          if (!aIpFace.empty()) { // edges of this outer face are bisected by finer neighbors
+            for (unsigned int i = 1; i + 1 < aIpFace.size(); ++i) {
+              aTet.push_back(ip_c);
+              aTet.push_back(aIpFace[0]);
+              aTet.push_back(aIpFace[i]);
+              aTet.push_back(aIpFace[i + 1]);
+            }
+            continue;
+          }
           if (iptn == 0) { // connect 0-2
             aTet.push_back(ip_c);
             aTet.push_back(ip_f0);
-- 
2.43.0


From 8250cc75b710fe44a3cb5b0fe5ca7d9c1840138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 179/196] fix: adaptive distance field returned an inward
 normal of wrong length outside of its box

---
 include/delfem2/isrf_adf.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/isrf_adf.cpp b/include/delfem2/isrf_adf.cpp
index c1be9aa..adae45c 100644
--- a/include/delfem2/isrf_adf.cpp
+++ b/include/delfem2/isrf_adf.cpp
@@ -383,11 +383,11 @@ double delfem2::AdaptiveDistanceField3::Projection(
 {
   const CNode &no = aNode[0];
   if (fabs(px - no.cent_[0]) > no.hw_ || fabs(py - no.cent_[1]) > no.hw_ || fabs(pz - no.cent_[2]) > no.hw_) {
-    n[0] = no.cent_[0] - px;
-    n[1] = no.cent_[1] - py;
-    n[2] = no.cent_[2] - pz;
+    n[0] = px - no.cent_[0];
+    n[1] = py - no.cent_[1];
+    n[2] = pz - no.cent_[2];
     const double invlen = 1.0 / sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
-    for (unsigned int i = 0; i < 3; i++) { n[0] *= invlen; }
+    for (unsigned int i = 0; i < 3; i++) { n[i] *= invlen; }
     return -no.hw_;
   }
   return no.FindDistNormal(px, py, pz, n, aNode);
-- 
2.43.0


From 5e187c18bd141f725a1b92323f7dbe6829fdf0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:10 +0000
Subject: [PATCH 180/196] fix: parallel image of rays ran rows and columns
 swapped

---
 include/delfem2/srch_trimesh3_class.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/srch_trimesh3_class.h b/include/delfem2/srch_trimesh3_class.h
index f59c3c0..6bc3f06 100644
--- a/include/delfem2/srch_trimesh3_class.h
+++ b/include/delfem2/srch_trimesh3_class.h
@@ -472,7 +472,7 @@ void Intersection_ImageRay_TriMesh3(
     aPointElemSurf[ih * nwidth + iw] = pos_mesh;
   };
   if( is_parallel ) {
-    parallel_for(nwidth, nheight, func);
+    parallel_for(nheight, nwidth, func);
   }
   else {
     for (unsigned int ih = 0; ih < nheight; ++ih) {
-- 
2.43.0


From 2c35d1f8fb95a0ab05ba091299bd462172ad7b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:10 +0000
Subject: [PATCH 181/196] fix: image of rays kept the hits of an earlier image
 where a ray misses

---
 include/delfem2/srch_trimesh3_class.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/srch_trimesh3_class.h b/include/delfem2/srch_trimesh3_class.h
index 6bc3f06..16c813d 100644
--- a/include/delfem2/srch_trimesh3_class.h
+++ b/include/delfem2/srch_trimesh3_class.h
@@ -459,7 +459,7 @@ void Intersection_ImageRay_TriMesh3(
     const std::vector<double> &aXYZ, // 3d points
     const std::vector<unsigned int> &aTri,
     bool is_parallel) {
-  aPointElemSurf.resize(nheight * nwidth);
+  aPointElemSurf.assign(nheight * nwidth, PointOnSurfaceMesh<double>());
   const std::array<double, 16> mMVPd_inv = Inverse_Mat4(mMVPd);
   auto func = [&](int ih, int iw) {
     const std::pair<CVec3d, CVec3d> ray = RayFromInverseMvpMatrix(mMVPd_inv.data(), iw, ih, nwidth, nheight);
-- 
2.43.0


From 1f515eef62f121d7635fe08a6677c220e831fbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 182/196] fix: ReadParam lost a last number without newline and
 never ended on other text

---
 include/delfem2/file.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/file.cpp b/include/delfem2/file.cpp
index 93d26b1..17eb5d7 100644
--- a/include/delfem2/file.cpp
+++ b/include/delfem2/file.cpp
@@ -93,10 +93,8 @@ DFM2_INLINE bool delfem2::ReadParam(
   fin.open(fname.c_str());
   if( !fin.is_open() ) return false;
   aPara.clear();
-  for(;;){
-    double d;
-    fin >> d;
-    if( fin.eof() ) break;
+  double d;
+  while( fin >> d ){
     aPara.push_back(static_cast<float>(d));
   }
   return true;
-- 
2.43.0


From a0fafb8c6faa8a2e088601f5782ba3829d9247bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 183/196] fix: BiCGSTAB of bem gave NaN when the residual
 vanished at the half step

---
 include/delfem2/bem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/bem.cpp b/include/delfem2/bem.cpp
index ed61e0e..532f048 100644
--- a/include/delfem2/bem.cpp
+++ b/include/delfem2/bem.cpp
@@ -151,7 +151,7 @@ bool delfem2::Solve_BiCGSTAB
     {
       const double den = squaredNorm(As_vec);
       const double num = bem::dot(As_vec, s_vec);
-      omega = num / den;
+      omega = (den > 0.) ? num / den : 0.; // the residual vanished at the half step
     }
 
     // update solution
-- 
2.43.0


From 36eb13e88b78966099645ca978dad1f247c9b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:10 +0000
Subject: [PATCH 184/196] fix: self-collision impulses act on points beyond the
 third edge of a face

---
 include/delfem2/cloth_selfcollision.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/delfem2/cloth_selfcollision.cpp b/include/delfem2/cloth_selfcollision.cpp
index 44f3fce..63e03ae 100755
--- a/include/delfem2/cloth_selfcollision.cpp
+++ b/include/delfem2/cloth_selfcollision.cpp
@@ -51,6 +51,7 @@ void SelfCollisionImpulse_Proximity(
         double dist = DistanceFaceVertex(p0, p1, p2, p3, w0,w1);
         if( w0 < 0 || w0 > 1 ) continue;
         if( w1 < 0 || w1 > 1 ) continue;
+        if( w0 + w1 > 1 ) continue;
         if( dist > delta ) continue;
       }
       double w2 = 1.0 - w0 - w1;
@@ -158,6 +159,7 @@ void SelfCollisionImpulse_CCD(
         double dist = DistanceFaceVertex(p0m, p1m, p2m, p3m, w0,w1);
         if( w0 < 0 || w0 > 1 ) continue;
         if( w1 < 0 || w1 > 1 ) continue;
+        if( w0 + w1 > 1 ) continue;
         if( dist > delta ) continue;
       }
       double w2 = 1.0 - w0 - w1;
-- 
2.43.0


From 3d1574a0b93cd0b5aae3db6e658e27f273f3e19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 185/196] fix: dragging a rotation ring given by a quaternion
 turns it the wrong way about a wrong axis

---
 include/delfem2/gizmo_geo3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/gizmo_geo3.cpp b/include/delfem2/gizmo_geo3.cpp
index 9987521..2bf6702 100644
--- a/include/delfem2/gizmo_geo3.cpp
+++ b/include/delfem2/gizmo_geo3.cpp
@@ -146,14 +146,14 @@ DFM2_INLINE bool delfem2::DragHandlerRot_PosQuat(
     vi[ielem] = 1;
     const CVec3d v1 = CVec3d(QuatVec3(quat, vi)).normalized();
     const CVec3d v0 = CVec3d::Axis(ielem);
-    double ar = -DragCircle(sp0, sp1, pos, v1, mMV, mPj);
+    double ar = DragCircle(sp0, sp1, pos, v1, mMV, mPj);
     const double dq[4] = {
         v0.x * sin(ar * 0.5),
         v0.y * sin(ar * 0.5),
         v0.z * sin(ar * 0.5),
         cos(ar * 0.5)};
     double qtmp[4];
-    QuatQuat(qtmp, dq, quat);
+    QuatQuat(qtmp, quat, dq);
     Copy_Quat(quat, qtmp);
     return true;
   }
-- 
2.43.0


From 220ac681666d5a61238b0a3659971e375bd86b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:29 +0000
Subject: [PATCH 186/196] fix: Lloyd step writes out of bounds when a cell is
 farther than two units from every point

---
 include/delfem2/sampler_lloyd2.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/sampler_lloyd2.h b/include/delfem2/sampler_lloyd2.h
index 0113c98..611f9d8 100644
--- a/include/delfem2/sampler_lloyd2.h
+++ b/include/delfem2/sampler_lloyd2.h
@@ -9,6 +9,7 @@
 #define DFM2_SAMPLER_H
 
 #include <vector>
+#include <cfloat>
 #include <climits>
 #include <cassert>
 
@@ -39,7 +40,7 @@ void Step_Lloyd2(
       const double ry0 = 1.0 - (ih + 0.5) / ndiv;
       const double x0 = min_aabb[0] + (max_aabb[0] - min_aabb[0]) * rx0;
       const double y0 = min_aabb[1] + (max_aabb[1] - min_aabb[1]) * ry0;
-      double min_dist = 4.0;
+      double min_dist = DBL_MAX;
       unsigned int min_ip = UINT_MAX;
       for (unsigned int ip = 0; ip < np; ++ip) {
         const double x1 = aXY[ip * 2 + 0];
-- 
2.43.0


From c54ed1d59294e93671893aeee1354fd70774775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:29 +0000
Subject: [PATCH 187/196] fix: Lloyd step moves points without importance to
 (1,1)

---
 include/delfem2/sampler_lloyd2.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/sampler_lloyd2.h b/include/delfem2/sampler_lloyd2.h
index 611f9d8..8179bdc 100644
--- a/include/delfem2/sampler_lloyd2.h
+++ b/include/delfem2/sampler_lloyd2.h
@@ -54,7 +54,7 @@ void Step_Lloyd2(
     }
   }
 
-  std::vector<double> awpw(np * 3, 1.0e-10);
+  std::vector<double> awpw(np * 3, 0.0);
   for (unsigned int ih = 0; ih < ndiv; ++ih) {
     for (unsigned int iw = 0; iw < ndiv; ++iw) {
       const double rx0 = (iw + 0.5) / ndiv;
@@ -70,6 +70,7 @@ void Step_Lloyd2(
   }
 
   for (unsigned int ip = 0; ip < np; ++ip) {
+    if (awpw[ip * 3 + 2] <= 0) { continue; } // nothing to be moved to
     aXY[ip * 2 + 0] = awpw[ip * 3 + 0] / awpw[ip * 3 + 2];
     aXY[ip * 2 + 1] = awpw[ip * 3 + 1] / awpw[ip * 3 + 2];
   }
-- 
2.43.0


From bb25a2e8e3d235b9c538bef4bd30b7dd18d58943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:29 +0000
Subject: [PATCH 188/196] fix: orientation smoothing in random order does
 nothing

---
 include/delfem2/4rotsym.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/4rotsym.h b/include/delfem2/4rotsym.h
index b5d5438..5336b29 100644
--- a/include/delfem2/4rotsym.h
+++ b/include/delfem2/4rotsym.h
@@ -129,7 +129,7 @@ void Smooth4RotSym_RandomPermutation(
       const CVec3d n1 = CVec3d(aNorm.data()+jp1*3);
       const CVec3d o1 = CVec3d(aOdir.data()+jp1*3);
       unsigned int idiff;
-      FindNearestOrientation(idiff,
+      o_new = FindNearestOrientation(idiff,
           o_new,n0, o1,n1,weight);
       weight += 1.0;
     }
-- 
2.43.0


From 25873a57fccd979bd2ffb5820137c6cb70610d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:29 +0000
Subject: [PATCH 189/196] fix: cloth panels bent the other way are stretched

---
 include/delfem2/garment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/garment.h b/include/delfem2/garment.h
index 41856b9..d0a0c7f 100644
--- a/include/delfem2/garment.h
+++ b/include/delfem2/garment.h
@@ -36,7 +36,7 @@ public:
   delfem2::CVec3d Transform(const delfem2::CVec2d& pi) const {
     delfem2::CVec3d p0(pi.x-org2.x, pi.y-org2.y,0.0);
     delfem2::CVec3d p2 = p0;
-    if( radinv_x < 1.0e-5 ) {
+    if( fabs(radinv_x) < 1.0e-5 ) {
       double x0 = p0.x;
       p2.p[0] = x0;
       p2.p[2] = -0.5*radinv_x*x0*x0;
-- 
2.43.0


From 028c160ede453cc3010fcf279475267bd04a3b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:01 +0000
Subject: [PATCH 190/196] fix: forget the cached distances when the rigged body
 moves in CProjector_RigMesh

---
 include/delfem2/garment.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/garment.h b/include/delfem2/garment.h
index d0a0c7f..c1232fa 100644
--- a/include/delfem2/garment.h
+++ b/include/delfem2/garment.h
@@ -172,6 +172,7 @@ public:
         aNorm_Body.data(),
         aXYZ1_Body.data(), aXYZ1_Body.size()/3,
         aTri_Body.data(), aTri_Body.size()/3);
+    aInfoNearest_Cloth.clear(); // the distances were measured to the body before it moved
   }
   void Project(double* aXYZt, unsigned int nXYZt){
     Project_PointsIncludedInBVH_Outside_Cache(
-- 
2.43.0


From b9b80efe4faafd82bab976f77ace6c962c40d58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:55 +0000
Subject: [PATCH 191/196] fix: analytic length of small quadratic curves fell
 back to a low-order quadrature

---
 include/delfem2/geo_curve_quadratic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_curve_quadratic.h b/include/delfem2/geo_curve_quadratic.h
index cc9c6f3..30ad183 100644
--- a/include/delfem2/geo_curve_quadratic.h
+++ b/include/delfem2/geo_curve_quadratic.h
@@ -64,7 +64,7 @@ double Length_QuadraticCurve(
     const VEC &q0,
     const VEC &q1,
     const VEC &q2) {
-  if (q2.squaredNorm() < 1.0e-5) {
+  if (q2.squaredNorm() <= 1.0e-5 * q1.squaredNorm()) { // almost straight with uniform speed
     return Length_QuadraticCurve_Gauss(q0, q1, q2, 3);
   }
   // dl = sqrt(coe[0] + coe[1]*t + coe[2]*t^2) dt
-- 
2.43.0


From eb02906aaec48aa51b9137efd93e995a93756dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:03 +0000
Subject: [PATCH 192/196] fix: nearest points of a short edge and a line were
 found as if they were parallel

---
 include/delfem2/geo_edge.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 0c311ab..e6b47c4 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -317,7 +317,8 @@ void delfem2::Nearest_Edge3_Line3(
   Nearest_Line3_Line3(
     D0, Da0, Db0, Dta0, Dtb0,
     lineseg_start, lineseg_end - lineseg_start, line_origin, line_direction);
-  if (std::abs(D0) < 1.0e-10) { // pararell
+  const VEC lineseg_vector = lineseg_end - lineseg_start;
+  if (std::abs(D0) <= 1.0e-10 * lineseg_vector.dot(lineseg_vector) * line_direction.dot(line_direction)) { // pararell
     nearest_lineseg = (lineseg_start + lineseg_end) * static_cast<T>(0.5);
     nearest_line = ::delfem2::Nearest_Line3_Point3<VEC>(
       nearest_lineseg, line_origin, line_direction);
-- 
2.43.0


From 15b20de4edaa96aa80d80b0101cfc21f90d46854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:03 +0000
Subject: [PATCH 193/196] fix: distance of very short crossing edges was found
 as if they were parallel

---
 include/delfem2/geo_edge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index e6b47c4..e347c82 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -367,7 +367,7 @@ double delfem2::Distance_Edge3_Edge3(
   double &ratio_q) {
   const CVec3<T> &vp = p1 - p0;
   const CVec3<T> &vq = q1 - q0;
-  if (Cross(vp, vq).norm() < 1.0e-10) { // handling parallel edge
+  if (Cross(vp, vq).norm() <= 1.0e-10 * vp.norm() * vq.norm()) { // handling parallel edge
     CVec3<T> pq0 = p0 - q0;
     CVec3<T> nvp = vp;
     nvp.normalize();
-- 
2.43.0


From 9b4b32451be5e5204bea975b86aae197ef51866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:36 +0000
Subject: [PATCH 194/196] fix: InverseMat2 refused regular matrices of small
 entries

---
 include/delfem2/mat2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/mat2.cpp b/include/delfem2/mat2.cpp
index 69821ae..cf17536 100644
--- a/include/delfem2/mat2.cpp
+++ b/include/delfem2/mat2.cpp
@@ -66,7 +66,7 @@ DFM2_INLINE bool delfem2::InverseMat2(
     double invB[4],
     const double B[4]) {
   double det = B[0] * B[3] - B[1] * B[2];
-  if (fabs(det) < 1.0e-10) return false;
+  if (fabs(det) <= 1.0e-10 * (fabs(B[0] * B[3]) + fabs(B[1] * B[2]))) return false;
   double invdet = 1.0 / det;
   invB[0] = +invdet * B[3];
   invB[1] = -invdet * B[1];
-- 
2.43.0


From b479872e5c6e3af279f27839aad5e7389baab0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:36 +0000
Subject: [PATCH 195/196] fix: Inverse_Matrix refused regular 2x2 matrices of
 small entries

---
 include/delfem2/matn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/matn.h b/include/delfem2/matn.h
index 320a08f..fc66ae8 100644
--- a/include/delfem2/matn.h
+++ b/include/delfem2/matn.h
@@ -91,7 +91,7 @@ bool Inverse_Matrix<float, 3>(float *a) {
 template<>
 bool Inverse_Matrix<double, 2>(double *B) {
   const double det = B[0] * B[3] - B[1] * B[2];
-  if (fabs(det) < 1.0e-10) return false;
+  if (fabs(det) <= 1.0e-10 * (fabs(B[0] * B[3]) + fabs(B[1] * B[2]))) return false;
   const double invdet = 1.0 / det;
   const double t[4] = {B[0], B[1], B[2], B[3]};
   B[0] = +invdet * t[3];
-- 
2.43.0


From 1b18f6aff6891d6c9bdf941846f6b75a93453e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:18 +0000
Subject: [PATCH 196/196] fix: sphere line and ray tests asserted an absolute
 rounding error

---
 include/delfem2/srch_bv3_sphere.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/srch_bv3_sphere.h b/include/delfem2/srch_bv3_sphere.h
index 9d95770..5bad043 100755
--- a/include/delfem2/srch_bv3_sphere.h
+++ b/include/delfem2/srch_bv3_sphere.h
@@ -73,7 +73,9 @@ public:
     const REAL py = src[1] + ratio*dir[1];
     const REAL pz = src[2] + ratio*dir[2];
     const REAL L = sqrt((px-c[0])*(px-c[0]) + (py-c[1])*(py-c[1]) + (pz-c[2])*(pz-c[2]));
-    assert( fabs(dir[0]*(px-c[0]) + dir[1]*(py-c[1]) + dir[2]*(pz-c[2])) < 1.0e-4 );
+    // the foot of the perpendicular, up to the rounding of coordinates of this size
+    assert( fabs(dir[0]*(px-c[0]) + dir[1]*(py-c[1]) + dir[2]*(pz-c[2])) <= 1.0e-4*(
+        fabs(dir[0])*(fabs(src[0])+fabs(c[0])) + fabs(dir[1])*(fabs(src[1])+fabs(c[1])) + fabs(dir[2])*(fabs(src[2])+fabs(c[2]))) );
     if( L <= r ){ return true; }
     return false;
   }
@@ -87,7 +89,9 @@ public:
     const double py = src[1] + ratio*dir[1];
     const double pz = src[2] + ratio*dir[2];
     const double L = sqrt((px-c[0])*(px-c[0]) + (py-c[1])*(py-c[1]) + (pz-c[2])*(pz-c[2]));
-    assert( fabs(dir[0]*(px-c[0]) + dir[1]*(py-c[1]) + dir[2]*(pz-c[2])) < 1.0e-10 );
+    // the foot of the perpendicular, up to the rounding of coordinates of this size
+    assert( fabs(dir[0]*(px-c[0]) + dir[1]*(py-c[1]) + dir[2]*(pz-c[2])) <= 1.0e-10*(
+        fabs(dir[0])*(fabs(src[0])+fabs(c[0])) + fabs(dir[1])*(fabs(src[1])+fabs(c[1])) + fabs(dir[2])*(fabs(src[2])+fabs(c[2]))) );
     if( L <= r ){ return true; }
     return false;
   }
-- 
2.43.0

