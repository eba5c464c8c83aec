From 92ffca35f1af349242f260738b6a7ec169534708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 01/20] fix: EDGE-V centroids start from zero instead of
 uninitialized memory

---
 tools/edge_v/src/geom/Generic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/edge_v/src/geom/Generic.cpp b/tools/edge_v/src/geom/Generic.cpp
index cf0fff0..da78a41 100644
--- a/tools/edge_v/src/geom/Generic.cpp
+++ b/tools/edge_v/src/geom/Generic.cpp
@@ -29,6 +29,10 @@ void edge_v::geom::Generic::centroid( t_entityType         i_enTy,
                                       double               o_cen[3] ) {
   unsigned short l_nEnVes = CE_N_VES( i_enTy );
 
+  for( unsigned short l_di = 0; l_di < 3; l_di++ ) {
+    o_cen[l_di] = 0;
+  }
+
   for( unsigned short l_ve = 0; l_ve < l_nEnVes; l_ve++ ) {
     for( unsigned short l_di = 0; l_di < 3; l_di++ ) {
       o_cen[l_di] += i_veCrds[l_ve][l_di];
-- 
2.43.0


From ec436ff51f5e4dd6e7e6caf2cfff8f6420e79a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:29 +0000
Subject: [PATCH 02/20] fix: EDGE-V dual graph: edge weights follow the order
 of the graph's edges

---
 tools/edge_v/src/mesh/Partition.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/edge_v/src/mesh/Partition.h b/tools/edge_v/src/mesh/Partition.h
index 7cd710f..10ab551 100644
--- a/tools/edge_v/src/mesh/Partition.h
+++ b/tools/edge_v/src/mesh/Partition.h
@@ -26,6 +26,7 @@
 
 #include "Mesh.h"
 #include <algorithm>
+#include <vector>
 
 namespace edge_v {
   namespace mesh {
@@ -176,8 +177,13 @@ class edge_v::mesh::Partition {
           o_vwgt[l_el] *= 2;
         }
 
+        // use the order of the dual graph (ascending element ids) for the edges
+        std::vector< t_idx > l_elAds( i_elFaEl +  l_el   *l_nElFas,
+                                      i_elFaEl + (l_el+1)*l_nElFas );
+        std::sort( l_elAds.begin(), l_elAds.end() );
+
         for( t_idx l_fa = 0; l_fa < l_nElFas; l_fa++ ) {
-          t_idx l_ad = i_elFaEl[l_el*l_nElFas + l_fa];
+          t_idx l_ad = l_elAds[l_fa];
 
           if( l_ad != std::numeric_limits< t_idx >::max() ) {
             // larger time group elements have to sent twice the amount
-- 
2.43.0


From 81673063fc1624a5c14e40a8cccfe70027fe2546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:18 +0000
Subject: [PATCH 03/20] fix: EDGE-V partitions: report zero elements for
 trailing empty partitions

---
 tools/edge_v/src/mesh/Partition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/edge_v/src/mesh/Partition.cpp b/tools/edge_v/src/mesh/Partition.cpp
index d20788d..25eda73 100644
--- a/tools/edge_v/src/mesh/Partition.cpp
+++ b/tools/edge_v/src/mesh/Partition.cpp
@@ -232,7 +232,7 @@ void edge_v::mesh::Partition::kWay( t_idx          i_nParts,
   // store the number of partitions and elements per partition
   m_nPas = i_nParts;
   if( m_nPaEls != nullptr ) delete[] m_nPaEls;
-  m_nPaEls = new t_idx[ i_nParts ];
+  m_nPaEls = new t_idx[ i_nParts ](); // zero-init: trailing partitions might be empty
   nPaEls( m_mesh.nEls(),
           m_elPa,
           m_nPaEls );
-- 
2.43.0


From ef5204d4da95681b2f01782153bd973ae8f8d957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:25 +0000
Subject: [PATCH 04/20] fix: EDGEcut writes coordinates with full precision

---
 tools/edge_cut/src/main.cpp         | 4 ++++
 tools/edge_cut/src/mesh/Extrude.cpp | 1 +
 2 files changed, 5 insertions(+)

diff --git a/tools/edge_cut/src/main.cpp b/tools/edge_cut/src/main.cpp
index cfc4441..5a72af5 100644
--- a/tools/edge_cut/src/main.cpp
+++ b/tools/edge_cut/src/main.cpp
@@ -85,6 +85,10 @@ int main( int i_argc, char *i_argv[] ) {
   std::ofstream l_top(    l_config.getMeshOutTop(),
                           std::ios::out );
 
+  // use full precision for the coordinates
+  for( std::ofstream * l_st : { &l_left, &l_right, &l_front, &l_back, &l_bottom, &l_top } )
+    l_st->precision( std::numeric_limits< double >::max_digits10 );
+
   // write
   EDGE_CUT_LOG_INFO << "writing output meshes";
   l_ext.writeOff( l_left,
diff --git a/tools/edge_cut/src/mesh/Extrude.cpp b/tools/edge_cut/src/mesh/Extrude.cpp
index cd37b94..8c14723 100644
--- a/tools/edge_cut/src/mesh/Extrude.cpp
+++ b/tools/edge_cut/src/mesh/Extrude.cpp
@@ -445,6 +445,7 @@ void edge_cut::mesh::Extrude::writeOff( std::ostream & io_left,
 
   // top
   std::stringstream l_top;
+  l_top.precision( io_top.precision() );
   writePtsOff( m_veCrdsSurf,
                l_top );
   std::size_t l_nTria = writeTriaOff( m_nx[0],
-- 
2.43.0


From f1ef9e28bf0d92cf763de578030a7b958f95516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:50 +0000
Subject: [PATCH 05/20] fix: EDGEcut coarse y-spacing is the difference of
 neighboring coarse grid lines

---
 tools/edge_cut/src/mesh/Extrude.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/edge_cut/src/mesh/Extrude.cpp b/tools/edge_cut/src/mesh/Extrude.cpp
index 8c14723..2c6f06a 100644
--- a/tools/edge_cut/src/mesh/Extrude.cpp
+++ b/tools/edge_cut/src/mesh/Extrude.cpp
@@ -313,7 +313,7 @@ edge_cut::mesh::Extrude::Extrude( std::size_t          i_nVes,
   // derive minimum dx and dy in the coarse mesh
   for( std::size_t l_ve = 0; l_ve < m_ny[1]-1; l_ve++ ) {
     std::size_t l_veNext = (l_ve+1) * m_refRatio;
-    double l_diff = std::get<1>( m_veCrdsSurf[l_veNext] ) - std::get<1>( m_veCrdsSurf[l_ve] );
+    double l_diff = std::get<1>( m_veCrdsSurf[l_veNext] ) - std::get<1>( m_veCrdsSurf[l_ve*m_refRatio] );
     m_dMin[1] = std::min( m_dMin[1], l_diff );
   }
   for( std::size_t l_ve = 0; l_ve < (m_nx[0]-m_refRatio)*m_ny[0]; l_ve+=m_ny[0]*m_refRatio ) {
-- 
2.43.0


From 948774c1f6307542a068108e51fe5f4dd18a5ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:30 +0000
Subject: [PATCH 06/20] fix: integration of sampled series when both bounds lie
 in the same sampling interval

---
 src/linalg/Series.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/linalg/Series.hpp b/src/linalg/Series.hpp
index 0fdbd77..b488a8b 100644
--- a/src/linalg/Series.hpp
+++ b/src/linalg/Series.hpp
@@ -74,7 +74,21 @@ class edge::linalg::Series {
       std::size_t l_first = std::max( (i_x1 - i_xStart + i_dx)/i_dx, (TL_T_REAL) 0 );
       std::size_t l_last  = std::max( (i_x2 - i_xStart       )/i_dx, (TL_T_REAL) 0 );
                   l_last  = std::min( l_last,  i_nPts-1 );
-                  l_first = std::min( l_first, l_last );
+
+      // both bounds are in the same sampling interval
+      if( l_first > l_last && l_last < i_nPts-1 ) {
+        TL_T_REAL l_xL = i_xStart + l_last*i_dx;
+        // relative location of the center of [x1, x2] in the interval
+        TL_T_REAL l_cen = ( (i_x1 - l_xL) + (i_x2 - l_xL) ) * (TL_T_REAL) 0.5 / i_dx;
+
+        for( unsigned short l_se = 0; l_se < TL_N_SERIES; l_se++ ) {
+          o_int[l_se] =   i_vals[l_last][l_se]
+                        + l_cen * ( i_vals[l_last+1][l_se] - i_vals[l_last][l_se] );
+          o_int[l_se] *= i_x2 - i_x1;
+        }
+        return;
+      }
+      l_first = std::min( l_first, l_last );
 
 
       // add contribution of the covered intervals
-- 
2.43.0


From 4cafa03b93abfa6fb63ce616c8a9285284327392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:46 +0000
Subject: [PATCH 07/20] fix: basis of line elements: derivative index 0 is the
 derivative w.r.t. xi

---
 src/dg/Basis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg/Basis.cpp b/src/dg/Basis.cpp
index 3f2f70d..66c3c4f 100644
--- a/src/dg/Basis.cpp
+++ b/src/dg/Basis.cpp
@@ -376,7 +376,7 @@ real_base edge::dg::Basis::evalBasis( unsigned int  i_b,
   real_base l_val = std::numeric_limits< real_base >::max();
 
   if( i_entType == LINE )
-    if( i_der != 1 ) evalBasisLine( i_b,
+    if( i_der != 0 ) evalBasisLine( i_b,
                                     i_xi,
                                     l_val );
     else             evalBasisDerLine( i_b,
@@ -428,7 +428,7 @@ real_base edge::dg::Basis::evalBasis( unsigned int        i_b,
   real_base l_val = std::numeric_limits< real_base >::max();
 
   if( i_enType == LINE )
-    if( i_der != 1 ) evalBasisLine( i_b,
+    if( i_der != 0 ) evalBasisLine( i_b,
                                     i_pt[0],
                                     l_val );
     else             evalBasisDerLine( i_b,
-- 
2.43.0


From 720ee3a48ae0e4930da67b4df6bf8e8c6ef68ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:42 +0000
Subject: [PATCH 08/20] fix: viscoelastic flux solvers at partition boundaries
 use the elastic Lame parameters of the receive elements

---
 src/impl/seismic/solvers/AderDg.hpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/impl/seismic/solvers/AderDg.hpp b/src/impl/seismic/solvers/AderDg.hpp
index b91fa2d..3d621ed 100644
--- a/src/impl/seismic/solvers/AderDg.hpp
+++ b/src/impl/seismic/solvers/AderDg.hpp
@@ -282,6 +282,26 @@ class edge::seismic::solvers::AderDg {
                                             m_srcA );
       }
 
+      // received parameters are the ones before the conversion to elastic Lame parameters:
+      // convert them analogously, such that both sides of a face use the elastic parameters
+      t_bgPars const *l_bgParsRe = i_bgParsRe;
+      t_bgPars *l_bgParsReE = nullptr;
+      if( TL_N_RMS > 0 && i_nCommElFa > 0 ) {
+        l_bgParsReE = new t_bgPars[i_nCommElFa];
+        for( TL_T_LID l_co = 0; l_co < i_nCommElFa; l_co++ ) l_bgParsReE[l_co] = i_bgParsRe[l_co];
+
+        TL_T_REAL (*l_srcRe)[TL_N_ENS_SRC_A] = new TL_T_REAL[ std::size_t(i_nCommElFa) * TL_N_RMS ][TL_N_ENS_SRC_A];
+        AderDgInit< TL_T_EL,
+                    TL_MATS_SP >::initSrcA( i_nCommElFa,
+                                            TL_N_RMS,
+                                            i_freqCen,
+                                            i_freqRat,
+                                            l_bgParsReE,
+                                            l_srcRe );
+        delete[] l_srcRe;
+        l_bgParsRe = l_bgParsReE;
+      }
+
       // init star matrices
       AderDgInit< TL_T_EL,
                   TL_MATS_SP >::initStar( l_nEls,
@@ -306,9 +326,11 @@ class edge::seismic::solvers::AderDg {
                                         i_faChars,
                                         i_elChars,
                                         io_bgPars,
-                                        i_bgParsRe,
+                                        l_bgParsRe,
                                         m_fsE,
                                         m_fsA );
+
+      if( l_bgParsReE != nullptr ) delete[] l_bgParsReE;
     }
 
     /**
-- 
2.43.0


From eb6dac7c87869c468c4205f99fa42229c32ca513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:26 +0000
Subject: [PATCH 09/20] fix: first order advection on tets: flux matrices
 include the inverse mass matrix already

---
 src/impl/advection/solvers/common.hpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/impl/advection/solvers/common.hpp b/src/impl/advection/solvers/common.hpp
index 2e46f9c..6c5a447 100644
--- a/src/impl/advection/solvers/common.hpp
+++ b/src/impl/advection/solvers/common.hpp
@@ -295,14 +295,6 @@ class edge::advection::solvers::common {
 #error number of dimensions not supported.
 #endif
 
-        if( T_SDISC.ELEMENT == TET4 && ORDER == 1 ) {
-          // Remark: For tets the determinant is not equal to the volume of the tets.
-          //         We apply the effect of the inverse mass matrix right here.
-          //         Effectively this just scales the flux solver by the volume of the tets.
-          if( l_exL == true ) l_jL /= (double) 6;
-          if( l_exR == true ) l_jR /= (double) 6;
-        }
-
         // ensure positive determinants
         EDGE_CHECK( l_exL == false || l_jL > 0 );  EDGE_CHECK( l_exR == false || l_jR > 0 );
         EDGE_CHECK_GT( i_faChars[l_fa].area, 0 );
-- 
2.43.0


From acc7829948f6d0e63f5bc0b2eef77096bf629c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:26 +0000
Subject: [PATCH 10/20] fix: f-wave solver computes the wave speeds with the
 given gravity

---
 src/impl/swe/solvers/Fwave.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/impl/swe/solvers/Fwave.hpp b/src/impl/swe/solvers/Fwave.hpp
index 6597f67..3a215d8 100644
--- a/src/impl/swe/solvers/Fwave.hpp
+++ b/src/impl/swe/solvers/Fwave.hpp
@@ -222,7 +222,8 @@ class edge::swe::solvers::Fwave {
       // compute eigenvalues
       evs( i_hL,   i_hR,
            l_uL,   l_uR,
-           l_lam );
+           l_lam,
+           i_g );
 
       // compute jumps in fluxes
       for( unsigned short l_cr = 0; l_cr < TL_N_CRS; l_cr++ ) {
-- 
2.43.0


From 5701206e7e1b21748b3b809c92a5c1ced23c3a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:26 +0000
Subject: [PATCH 11/20] fix: CFL time step of the shallow water solver
 considers all components of the momentum

---
 src/impl/swe/solvers/FiniteVolume.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/impl/swe/solvers/FiniteVolume.hpp b/src/impl/swe/solvers/FiniteVolume.hpp
index 08afea7..75b4d01 100644
--- a/src/impl/swe/solvers/FiniteVolume.hpp
+++ b/src/impl/swe/solvers/FiniteVolume.hpp
@@ -193,8 +193,15 @@ class edge::swe::solvers::FiniteVolume {
         // compute minum CFL associated time step for all concurrent runs
         double l_cDt = std::numeric_limits< double >::max();
         for( unsigned short l_ru = 0; l_ru < TL_N_CRS; l_ru++ ) {
+          // magnitude of the momentum
+          double l_hu = 0;
+          for( unsigned short l_qt = 1; l_qt < TL_N_QTS; l_qt++ ) {
+            l_hu += double( i_dofs[l_el][l_qt][0][l_ru] ) * i_dofs[l_el][l_qt][0][l_ru];
+          }
+          l_hu = std::sqrt( l_hu );
+
           l_cDt = std::min( l_cDt, computeCflTimeStep( i_dofs[l_el][0][0][l_ru],
-                                                       i_dofs[l_el][1][0][l_ru],
+                                                       l_hu,
                                                        i_charsEl[l_el].inDia ) );
         }
 
-- 
2.43.0


From 0b0856c7ee3913c2e8ce4aec7411960e8d88f8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:26 +0000
Subject: [PATCH 12/20] fix: sparse links of undefined adjacent entities are
 set to max

---
 src/data/SparseEntities.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/data/SparseEntities.hpp b/src/data/SparseEntities.hpp
index 6005d1c..594859e 100644
--- a/src/data/SparseEntities.hpp
+++ b/src/data/SparseEntities.hpp
@@ -540,10 +540,9 @@ class edge::data::SparseEntities {
           for( unsigned short l_ae = 0; l_ae < i_nAdjPerEn; l_ae++ ) {
             TL_T_INT_LID l_aeId = i_enEn[ l_de * i_nAdjPerEn + l_ae ];
 
-            // ignore undefined adjacencies
-            if( l_aeId == std::numeric_limits< TL_T_INT_LID >::max() ) continue;
-
-            if( ( i_charsAdj[l_aeId].spType & i_spType ) == i_spType ) o_spLink[ l_spId*i_nAdjPerEn + l_ae ] = l_adjDeToSp[l_aeId];
+            // undefined adjacencies are not linked
+            if( l_aeId == std::numeric_limits< TL_T_INT_LID >::max() )                  o_spLink[ l_spId*i_nAdjPerEn + l_ae ] = std::numeric_limits< TL_T_INT_LID >::max();
+            else if( ( i_charsAdj[l_aeId].spType & i_spType ) == i_spType ) o_spLink[ l_spId*i_nAdjPerEn + l_ae ] = l_adjDeToSp[l_aeId];
             else                                                       o_spLink[ l_spId*i_nAdjPerEn + l_ae ] = std::numeric_limits< TL_T_INT_LID >::max();
           }
           l_spId++;
-- 
2.43.0


From 76902aad82e2ce589dd42f8bb8cd8a2c9e2eb928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:33 +0000
Subject: [PATCH 13/20] fix: 2D linear slip weakening takes the direction of
 the total shear stress

---
 src/impl/seismic/solvers/FrictionLaws.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/impl/seismic/solvers/FrictionLaws.hpp b/src/impl/seismic/solvers/FrictionLaws.hpp
index 01ecfff..7b04e2c 100644
--- a/src/impl/seismic/solvers/FrictionLaws.hpp
+++ b/src/impl/seismic/solvers/FrictionLaws.hpp
@@ -141,9 +141,10 @@ class edge::seismic::solvers::FrictionLaws< 2, TL_N_CRUNS > {
 
       // perturb middle states and update friction coefficient
       for( unsigned short l_ru = 0; l_ru < TL_N_CRUNS; l_ru++ ) {
-        // compute traction
-        o_tr[l_ru] = o_st[l_ru] - std::abs(i_ss0[l_ru]);
-        o_tr[l_ru] = (i_ss0[l_ru] > 0) ? o_tr[l_ru] : -o_tr[l_ru];
+        // compute traction: the fault strength bounds the total shear stress, whose direction is kept
+        TL_T_REAL l_shear = i_ss0[l_ru] + i_ms[2][l_ru];
+        o_tr[l_ru] = (l_shear > 0) ? o_st[l_ru] : -o_st[l_ru];
+        o_tr[l_ru] -= i_ss0[l_ru];
 
         // fall back to middle state if the fault is locked
         o_tr[l_ru] = (o_per[l_ru]) ? o_tr[l_ru] : i_ms[2][l_ru];
-- 
2.43.0


From bd14dae4d575f0157988013ffb738b5134843fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:42 +0000
Subject: [PATCH 14/20] fix: EDGEpre's hexahedral sub-cell maps follow the
 dimension-wise order of the sub-vertices

---
 tools/edge_pre/edge_pre/sc/grid/Hex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/edge_pre/edge_pre/sc/grid/Hex.py b/tools/edge_pre/edge_pre/sc/grid/Hex.py
index 744786e..ce54880 100644
--- a/tools/edge_pre/edge_pre/sc/grid/Hex.py
+++ b/tools/edge_pre/edge_pre/sc/grid/Hex.py
@@ -277,15 +277,15 @@ def scSfSc( i_deg ):
 def intSc( i_deg, i_syms ):
   assert( len(i_syms) == 3 )
 
-  # hex shape functions
+  # hex shape functions, dimension-wise order of the sub-vertices
   l_shape = [ (1 - i_syms[0]) * (1 - i_syms[1]) * (1 - i_syms[2]),
                i_syms[0]      * (1 - i_syms[1]) * (1 - i_syms[2]),
-               i_syms[0]      *  i_syms[1]      * (1 - i_syms[2]),
               (1 - i_syms[0]) *  i_syms[1]      * (1 - i_syms[2]),
+               i_syms[0]      *  i_syms[1]      * (1 - i_syms[2]),
               (1 - i_syms[0]) * (1 - i_syms[1]) *  i_syms[2],
                i_syms[0]      * (1 - i_syms[1]) *  i_syms[2],
-               i_syms[0]      *  i_syms[1]      *  i_syms[2],
-              (1 - i_syms[0]) *  i_syms[1]      *  i_syms[2] ]
+              (1 - i_syms[0]) *  i_syms[1]      *  i_syms[2],
+               i_syms[0]      *  i_syms[1]      *  i_syms[2] ]
 
   # get sub-cell coords
   l_svs = svs( i_deg )
-- 
2.43.0


From a1363c7e05cb43fac5c74e4e2a0edde83040426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:48 +0000
Subject: [PATCH 15/20] fix: create directories of paths with empty components
 (e.g. double or trailing slashes)

---
 src/io/FileSystem.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/FileSystem.hpp b/src/io/FileSystem.hpp
index 192a28e..2e488a6 100644
--- a/src/io/FileSystem.hpp
+++ b/src/io/FileSystem.hpp
@@ -90,8 +90,9 @@ class edge::io::FileSystem {
       struct stat l_stat;
 
       // create until all sub-directories are there
-      while( l_dir0 != "" ) {
-        if( l_dir0 != "/" ) l_dir0 += "/";
+      while( l_dir0 != "" || l_dir1 != "" ) {
+        // empty components ("//") don't add anything
+        if( l_dir0 != "/" && l_dir0 != "" ) l_dir0 += "/";
         l_dirCreate += l_dir0;
 
         //  check if directory exists
-- 
2.43.0


From d6d8de7a2050bf8a74b10819dac0cfe01f41ac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:17 +0000
Subject: [PATCH 16/20] fix: evaluate all modes of the viscoelastic time
 prediction for receivers

---
 src/impl/seismic/kernels/TimePred.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/impl/seismic/kernels/TimePred.hpp b/src/impl/seismic/kernels/TimePred.hpp
index f0b3d04..f4fbcaf 100644
--- a/src/impl/seismic/kernels/TimePred.hpp
+++ b/src/impl/seismic/kernels/TimePred.hpp
@@ -145,8 +145,11 @@ class edge::seismic::kernels::TimePred {
           // update scalar
           l_scalar *= i_pts[l_pt] / l_de;
 
+          // all modes are non-zero in viscoelastic settings
+          unsigned short l_nCpMds = (TL_N_RMS == 0) ? CE_N_ELEMENT_MODES_CK( TL_T_EL, TL_O_SP, l_de ) : TL_N_MDS;
+
           for( unsigned short l_qt = 0; l_qt < TL_N_QTS_E; l_qt++ ) {
-            for( unsigned short l_md = 0; l_md < CE_N_ELEMENT_MODES_CK( TL_T_EL, TL_O_SP, l_de ); l_md++ ) {
+            for( unsigned short l_md = 0; l_md < l_nCpMds; l_md++ ) {
               for( unsigned short l_ru = 0; l_ru < TL_N_CRS; l_ru++ )
                 o_preDofs[l_pt][l_qt][l_md][l_ru] += l_scalar * i_der[l_de][l_qt][l_md][l_ru];
             }
-- 
2.43.0


From 494dae6dba6f60f1ca613f299d1ee0d75624c306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 17/20] fix: shallow water setup does not build in double
 precision

std::max was called with a float (mesh data is read in single precision) and a real_base.
---
 src/impl/swe/setup.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/impl/swe/setup.inc b/src/impl/swe/setup.inc
index 3b876ce..a13405a 100644
--- a/src/impl/swe/setup.inc
+++ b/src/impl/swe/setup.inc
@@ -54,7 +54,7 @@ if( l_meshData ) {
     l_internal.m_elementModeShared1[l_el][0][0] = l_bath[l_el];
     for( unsigned short l_cr = 0; l_cr < N_CRUNS; l_cr++ ) {
       // add displacement to water column since we share the bathymetry
-      l_internal.m_elementModePrivate1[l_el][0][0][l_cr] = std::max( -l_bath[l_el] + l_disp[l_cr][l_el], real_base(0) );
+      l_internal.m_elementModePrivate1[l_el][0][0][l_cr] = std::max( real_base( -l_bath[l_el] + l_disp[l_cr][l_el] ), real_base(0) );
       l_internal.m_elementModePrivate1[l_el][1][0][l_cr] = 0;
       l_internal.m_elementModePrivate1[l_el][2][0][l_cr] = 0;
     }
-- 
2.43.0


From 23f4050e86b8a1b1ee0399757c2625ef0cea2d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:42 +0000
Subject: [PATCH 18/20] fix: advection solver ignores the communication buffers

The pointers to the buffers were computed but not assigned: every simulation with MPI dereferenced a null pointer.
---
 src/impl/advection/inc/time/tgs_steps.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/impl/advection/inc/time/tgs_steps.inc b/src/impl/advection/inc/time/tgs_steps.inc
index 5c3d9b7..712b979 100644
--- a/src/impl/advection/inc/time/tgs_steps.inc
+++ b/src/impl/advection/inc/time/tgs_steps.inc
@@ -24,7 +24,7 @@
 if( i_step == 0 ) {
   real_base (** l_sendPtrs)[N_ELEMENT_MODES][N_CRUNS] = nullptr;
   if( m_nCommBuffers > 0 ) {
-    (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_sendPtrs[getUpdatesSync()%m_nCommBuffers];
+    l_sendPtrs = (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_sendPtrs[getUpdatesSync()%m_nCommBuffers];
   }
   m_internal.m_globalShared4[0]->local(  i_first,
                                          i_size,
@@ -40,7 +40,7 @@ if( i_step == 0 ) {
 else if( i_step == 1 ) {
   real_base (** l_recvPtrs)[N_ELEMENT_MODES][N_CRUNS] = nullptr;
   if( m_nCommBuffers > 0 ) {
-    (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_recvPtrs[(getUpdatesSync()/m_nCommBuffers)%m_nCommBuffers];
+    l_recvPtrs = (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_recvPtrs[(getUpdatesSync()/m_nCommBuffers)%m_nCommBuffers];
   }
   m_internal.m_globalShared4[0]->neigh( i_first,
                                         i_size,
-- 
2.43.0


From 657c019e2f6bdb5376dd9877a2c6e618d94d70d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 19/20] fix: shallow water simulations without mesh data stay
 frozen

Without bathymetry in the mesh, the setup used a constant bathymetry of zero.
Cells with a non-negative bathymetry are dry and are never updated, thus
initial values given in the configuration did not change over time.
---
 src/impl/swe/setup.inc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/impl/swe/setup.inc b/src/impl/swe/setup.inc
index a13405a..8fe98c0 100644
--- a/src/impl/swe/setup.inc
+++ b/src/impl/swe/setup.inc
@@ -86,8 +86,9 @@ l_shared.regWrkRgn( 0, 1, 1,
 
 // initialize Bathymetry and DOFs
 if( !l_meshData ) {
+  // flat bathymetry below sea level: cells at or above sea level are dry
   for( std::size_t l_el = 0; l_el < l_edgeV.nEls(); l_el++ )
-    l_internal.m_elementModeShared1[l_el][0][0] = 0;
+    l_internal.m_elementModeShared1[l_el][0][0] = -1;
 
   edge::setups::InitialDofs<
     T_SDISC.ELEMENT,
-- 
2.43.0


From 220d7fd98228e9acf7afb037d69ae17ab6099c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:04 +0000
Subject: [PATCH 20/20] fix: tsunami models read vertex data at the elements'
 centroids

With a centroid-based CFL the speeds are evaluated at the elements, but the
grid still held one value per vertex: wrong time steps and reads out of bounds
in meshes with more elements than vertices.
---
 tools/edge_v/src/main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/edge_v/src/main.cpp b/tools/edge_v/src/main.cpp
index 4ef81ae..321a967 100644
--- a/tools/edge_v/src/main.cpp
+++ b/tools/edge_v/src/main.cpp
@@ -262,6 +262,10 @@ int main( int   i_argc,
 
   if( l_config.getCenCfl() ) {
     EDGE_V_LOG_INFO << "re-initializing velocity model at elements' centroids";
+    if( l_tsunamiGridBath != nullptr ) {
+      l_tsunamiGridBath->init( l_mesh->nEls(),
+                               l_mesh->getCentroidsEl() );
+    }
     l_velMod->init( l_mesh->nEls(),
                     l_mesh->getCentroidsEl() );
   }
@@ -522,6 +526,10 @@ int main( int   i_argc,
 
   if( l_config.getCenCfl() ) {
     EDGE_V_LOG_INFO << "re-initializing velocity model at elements' centroids";
+    if( l_tsunamiGridBath != nullptr ) {
+      l_tsunamiGridBath->init( l_mesh->nEls(),
+                               l_mesh->getCentroidsEl() );
+    }
     l_velMod->init( l_mesh->nEls(),
                     l_mesh->getCentroidsEl() );
   }
-- 
2.43.0

