From 46973d01a27959b738c3563e5dfc621ab48824cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:17 +0000
Subject: [PATCH 01/42] fix: MMG3D_Get_prisms returned the 2nd and 3rd vertices
 of each prism swapped

---
 src/mmg3d/API_functions_3d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index d862907..982c2ed 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -839,8 +839,8 @@ int  MMG3D_Get_prisms(MMG5_pMesh mesh, MMG5_int *prisms, MMG5_int *refs, int * a
     j = (i-1)*6;
     pp = &mesh->prism[i];
     prisms[j]   = pp->v[0];
-    prisms[j+2] = pp->v[1];
-    prisms[j+1] = pp->v[2];
+    prisms[j+1] = pp->v[1];
+    prisms[j+2] = pp->v[2];
     prisms[j+3] = pp->v[3];
     prisms[j+4] = pp->v[4];
     prisms[j+5] = pp->v[5];
-- 
2.43.0


From a1edb7f72e8f97a671a72c641350412a7577b76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:28 +0000
Subject: [PATCH 02/42] fix: MMGS_Set_edges read the reference of the next edge
 (and past the end of the array)

---
 src/mmgs/API_functions_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmgs/API_functions_s.c b/src/mmgs/API_functions_s.c
index 71cefa6..52da79a 100644
--- a/src/mmgs/API_functions_s.c
+++ b/src/mmgs/API_functions_s.c
@@ -670,7 +670,7 @@ int MMGS_Set_edges(MMG5_pMesh mesh, MMG5_int *edges, MMG5_int *refs) {
     mesh->edge[i].a    = edges[j];
     mesh->edge[i].b    = edges[j+1];
     if ( refs != NULL )
-      mesh->edge[i].ref  = refs[i];
+      mesh->edge[i].ref  = refs[i-1];
     mesh->edge[i].tag |= MG_REF;
   }
 
-- 
2.43.0


From 95ba8cd7d51269015e816e128e519c7ebf7e8347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:44 +0000
Subject: [PATCH 03/42] fix: report an out-of-range coordinate regularization
 parameter as a failure

---
 src/mmg2d/API_functions_2d.c | 1 +
 src/mmg3d/API_functions_3d.c | 1 +
 src/mmgs/API_functions_s.c   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index 3205094..34ebbeb 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -355,6 +355,7 @@ int MMG2D_Set_dparameter(MMG5_pMesh mesh, MMG5_pSol sol, int dparam, double val)
   case MMG2D_DPARAM_xreg :
     if (val < 0.0 || val > 1.0) {
       fprintf(stderr,"\n  ## Error: %s: Coordinate regularization parameter must be comprised between 0 and 1.\n",__func__);
+      return 0;
     }
     else
       mesh->info.lxreg    = val;
diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index 982c2ed..873e4d4 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -2420,6 +2420,7 @@ int MMG3D_Set_dparameter(MMG5_pMesh mesh, MMG5_pSol sol, int dparam, double val)
   case MMG3D_DPARAM_xreg :
     if (val < 0.0 || val > 1.0) {
       fprintf(stderr,"\n  ## Error: %s: Coordinate regularization parameter must be comprised between 0 and 1.\n",__func__);
+      return 0;
     }
     else
       mesh->info.lxreg    = val;
diff --git a/src/mmgs/API_functions_s.c b/src/mmgs/API_functions_s.c
index 52da79a..0c1e014 100644
--- a/src/mmgs/API_functions_s.c
+++ b/src/mmgs/API_functions_s.c
@@ -1567,6 +1567,7 @@ int MMGS_Set_dparameter(MMG5_pMesh mesh, MMG5_pSol sol, int dparam, double val){
   case MMGS_DPARAM_xreg :
     if (val < 0.0 || val > 1.0) {
       fprintf(stderr,"\n  ## Error: %s: Coordinate regularization parameter must be comprised between 0 and 1.\n",__func__);
+      return 0;
     }
     else
       mesh->info.lxreg    = val;
-- 
2.43.0


From 09167f53f24da05066ed19286cad4f11995e1d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:08 +0000
Subject: [PATCH 04/42] fix: MMGS_Set_localParameter wrote one entry past the
 declared number

---
 src/mmgs/API_functions_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmgs/API_functions_s.c b/src/mmgs/API_functions_s.c
index 0c1e014..f20e1e3 100644
--- a/src/mmgs/API_functions_s.c
+++ b/src/mmgs/API_functions_s.c
@@ -1601,7 +1601,7 @@ int MMGS_Set_localParameter(MMG5_pMesh mesh,MMG5_pSol sol, int typ, MMG5_int ref
     fprintf(stderr," values in local parameters structure. \n");
     return 0;
   }
-  if ( mesh->info.npari > mesh->info.npar ) {
+  if ( mesh->info.npari >= mesh->info.npar ) {
     fprintf(stderr,"\n  ## Error: %s: unable to set a new local parameter.\n",
             __func__);
     fprintf(stderr,"    max number of local parameters: %d\n",mesh->info.npar);
-- 
2.43.0


From a990a07202d269bcda0a832a3014b7e84e873431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:08 +0000
Subject: [PATCH 05/42] fix: declaring a new number of base references in mmg3d
 kept the old count and leaked the old table

---
 src/mmg3d/API_functions_3d.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index 873e4d4..4fef87f 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -2247,8 +2247,14 @@ int MMG3D_Set_iparameter(MMG5_pMesh mesh, MMG5_pSol sol, int iparam,MMG5_int val
 
     break;
   case MMG3D_IPARAM_numberOfLSBaseReferences :
-    mesh->info.nbr = val;
-    MMG5_ADD_MEM(mesh,mesh->info.nbr*sizeof(int),"References",
+    if ( mesh->info.br ) {
+      MMG5_DEL_MEM(mesh,mesh->info.br);
+      if ( (mesh->info.imprim > 5) || mesh->info.ddebug )
+        fprintf(stderr,"\n  ## Warning: %s: new level-set based references values\n",__func__);
+    }
+    mesh->info.nbr  = val;
+    mesh->info.nbri = 0;
+    MMG5_ADD_MEM(mesh,mesh->info.nbr*sizeof(MMG5_int),"References",
                  printf("  Exit program.\n");
                  return 0);
     MMG5_SAFE_CALLOC(mesh->info.br,mesh->info.nbr,MMG5_int,return 0);
-- 
2.43.0


From a40fd55e95cfb0bb8b7332f0daad4c8aa0e19b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 06/42] fix: MMG5_Set_multiMat stored an invalid split keyword
 when updating a material

---
 src/common/libtools.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/common/libtools.c b/src/common/libtools.c
index 77603d0..72f21a1 100644
--- a/src/common/libtools.c
+++ b/src/common/libtools.c
@@ -126,6 +126,13 @@ int MMG5_Set_multiMat(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int ref,
     return 0;
   }
 
+  if ( ( split != MMG5_MMAT_Split ) && ( split != MMG5_MMAT_NoSplit ) ) {
+    fprintf(stderr,"\n ## Error: %s: unexpected value for the 'split' argument."
+            " You must use the MMG5_MMAT_Split or MMG5_MMAT_NpSplit keywords \n",
+            __func__);
+    return 0;
+  }
+
   for (k=0; k<mesh->info.nmati; k++) {
     mat = &mesh->info.mat[k];
 
@@ -148,13 +155,6 @@ int MMG5_Set_multiMat(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int ref,
     }
   }
 
-  if ( ( split != MMG5_MMAT_Split ) && ( split != MMG5_MMAT_NoSplit ) ) {
-    fprintf(stderr,"\n ## Error: %s: unexpected value for the 'split' argument."
-            " You must use the MMG5_MMAT_Split or MMG5_MMAT_NpSplit keywords \n",
-            __func__);
-    return 0;
-  }
-
   mesh->info.mat[mesh->info.nmati].ref   = ref;
   mesh->info.mat[mesh->info.nmati].dospl = split;
   mesh->info.mat[mesh->info.nmati].rin   = rin;
-- 
2.43.0


From 12be8cd1101c32309f7778aaa4d7721402e98f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:25 +0000
Subject: [PATCH 07/42] fix: mmg2d vector solutions were stored and read one
 entry before the place the rest of the library uses

---
 src/mmg2d/API_functions_2d.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index 34ebbeb..5add5dc 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -1560,7 +1560,7 @@ int MMG2D_Set_vectorSol(MMG5_pSol met, double vx,double vy, MMG5_int pos) {
     return 0;
   }
 
-  isol = (pos-1) * met->size + 1;
+  isol = pos * met->size;
 
   met->m[isol]   = vx;
   met->m[isol+1] = vy;
@@ -1594,8 +1594,8 @@ int MMG2D_Get_vectorSol(MMG5_pSol met, double* vx, double* vy) {
     return 0;
   }
 
-  *vx = met->m[met->size*(met->npi-1)+1];
-  *vy = met->m[met->size*(met->npi-1)+2];
+  *vx = met->m[met->size*met->npi];
+  *vy = met->m[met->size*met->npi+1];
 
   return 1;
 }
@@ -1614,9 +1614,9 @@ int MMG2D_Set_vectorSols(MMG5_pSol met, double *sols) {
 
   for ( k=0; k<met->np; ++k ) {
     j = 2*k;
-    m = &met->m[j];
-    m[1] = sols[j];
-    m[2] = sols[j+1];
+    m = &met->m[j+2];
+    m[0] = sols[j];
+    m[1] = sols[j+1];
   }
 
   return 1;
@@ -1628,10 +1628,10 @@ int MMG2D_Get_vectorSols(MMG5_pSol met, double* sols) {
 
   for ( k=0; k<met->np; ++k ) {
     j = 2*k;
-    m = &met->m[j];
+    m = &met->m[j+2];
 
-    sols[j]   = m[1];
-    sols[j+1] = m[2];
+    sols[j]   = m[0];
+    sols[j+1] = m[1];
   }
 
   return 1;
-- 
2.43.0


From 7d4880eb834ab8e6d201c8778d600f32725920fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:25 +0000
Subject: [PATCH 08/42] fix: failures of the per-field solution setters and
 getters were not reported

---
 src/mmg2d/API_functions_2d.c | 21 +++++++++++++--------
 src/mmg3d/API_functions_3d.c | 21 +++++++++++++--------
 src/mmgs/API_functions_s.c   | 21 +++++++++++++--------
 3 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index 5add5dc..dcfe4b9 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -1757,11 +1757,11 @@ int  MMG2D_Set_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMG2D_Set_vectorSols(psl,s);
+    return MMG2D_Set_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMG2D_Set_tensorSols(psl,s);
+    return MMG2D_Set_tensorSols(psl,s);
     break;
 
   default:
@@ -1785,11 +1785,11 @@ int  MMG2D_Get_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMG2D_Get_vectorSols(psl,s);
+    return MMG2D_Get_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMG2D_Get_tensorSols(psl,s);
+    return MMG2D_Get_tensorSols(psl,s);
     break;
 
   default:
@@ -1813,11 +1813,11 @@ int  MMG2D_Set_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double* s,MMG5_int p
     break;
 
   case MMG5_Vector:
-    MMG2D_Set_vectorSol(psl,s[0],s[1],pos);
+    return MMG2D_Set_vectorSol(psl,s[0],s[1],pos);
     break;
 
   case MMG5_Tensor:
-    MMG2D_Set_tensorSol(psl,s[0],s[1],s[2],pos);
+    return MMG2D_Set_tensorSol(psl,s[0],s[1],s[2],pos);
     break;
 
   default:
@@ -1834,6 +1834,11 @@ int  MMG2D_Get_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double *s,MMG5_int p
   /* Warning: users give indices from 1 to nsols */
   psl = sol + (i-1);
 
+  if ( pos < 1 || pos > psl->np ) {
+    fprintf(stderr,"\n  ## Error: %s: unable to get solution at position %" MMG5_PRId ".\n",
+            __func__,pos);
+    return 0;
+  }
   psl->npi = pos-1;
 
   switch ( psl->type ) {
@@ -1842,11 +1847,11 @@ int  MMG2D_Get_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double *s,MMG5_int p
     break;
 
   case MMG5_Vector:
-    MMG2D_Get_vectorSol(psl,&s[0],&s[1]);
+    return MMG2D_Get_vectorSol(psl,&s[0],&s[1]);
     break;
 
   case MMG5_Tensor:
-    MMG2D_Get_tensorSol(psl,&s[0],&s[1],&s[2]);
+    return MMG2D_Get_tensorSol(psl,&s[0],&s[1],&s[2]);
     break;
 
   default:
diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index 4fef87f..d78d35f 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -1763,11 +1763,11 @@ int  MMG3D_Set_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double* s,MMG5_int p
     break;
 
   case MMG5_Vector:
-    MMG3D_Set_vectorSol(psl,s[0],s[1],s[2],pos);
+    return MMG3D_Set_vectorSol(psl,s[0],s[1],s[2],pos);
     break;
 
   case MMG5_Tensor:
-    MMG3D_Set_tensorSol(psl,s[0],s[1],s[2],s[3],s[4],s[5],pos);
+    return MMG3D_Set_tensorSol(psl,s[0],s[1],s[2],s[3],s[4],s[5],pos);
     break;
 
   default:
@@ -1784,6 +1784,11 @@ int  MMG3D_Get_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double *s,MMG5_int p
   /* Warning: users give indices from 1 to nsols */
   psl = sol + (i-1);
 
+  if ( pos < 1 || pos > psl->np ) {
+    fprintf(stderr,"\n  ## Error: %s: unable to get solution at position %" MMG5_PRId ".\n",
+            __func__,pos);
+    return 0;
+  }
   psl->npi = pos-1;
 
   switch ( psl->type ) {
@@ -1792,11 +1797,11 @@ int  MMG3D_Get_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double *s,MMG5_int p
     break;
 
   case MMG5_Vector:
-    MMG3D_Get_vectorSol(psl,&s[0],&s[1],&s[2]);
+    return MMG3D_Get_vectorSol(psl,&s[0],&s[1],&s[2]);
     break;
 
   case MMG5_Tensor:
-    MMG3D_Get_tensorSol(psl,&s[0],&s[1],&s[2],&s[3],&s[4],&s[5]);
+    return MMG3D_Get_tensorSol(psl,&s[0],&s[1],&s[2],&s[3],&s[4],&s[5]);
     break;
 
   default:
@@ -1820,11 +1825,11 @@ int  MMG3D_Set_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMG3D_Set_vectorSols(psl,s);
+    return MMG3D_Set_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMG3D_Set_tensorSols(psl,s);
+    return MMG3D_Set_tensorSols(psl,s);
     break;
 
   default:
@@ -1848,11 +1853,11 @@ int  MMG3D_Get_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMG3D_Get_vectorSols(psl,s);
+    return MMG3D_Get_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMG3D_Get_tensorSols(psl,s);
+    return MMG3D_Get_tensorSols(psl,s);
     break;
 
   default:
diff --git a/src/mmgs/API_functions_s.c b/src/mmgs/API_functions_s.c
index f20e1e3..ebc4138 100644
--- a/src/mmgs/API_functions_s.c
+++ b/src/mmgs/API_functions_s.c
@@ -1155,11 +1155,11 @@ int  MMGS_Set_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double* s,MMG5_int po
     break;
 
   case MMG5_Vector:
-    MMGS_Set_vectorSol(psl,s[0],s[1],s[2],pos);
+    return MMGS_Set_vectorSol(psl,s[0],s[1],s[2],pos);
     break;
 
   case MMG5_Tensor:
-    MMGS_Set_tensorSol(psl,s[0],s[1],s[2],s[3],s[4],s[5],pos);
+    return MMGS_Set_tensorSol(psl,s[0],s[1],s[2],s[3],s[4],s[5],pos);
     break;
 
   default:
@@ -1176,6 +1176,11 @@ int  MMGS_Get_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double *s,MMG5_int po
   /* Warning: users give indices from 1 to nsols */
   psl = sol + (i-1);
 
+  if ( pos < 1 || pos > psl->np ) {
+    fprintf(stderr,"\n  ## Error: %s: unable to get solution at position %" MMG5_PRId ".\n",
+            __func__,pos);
+    return 0;
+  }
   psl->npi = pos-1;
 
   switch ( psl->type ) {
@@ -1184,11 +1189,11 @@ int  MMGS_Get_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double *s,MMG5_int po
     break;
 
   case MMG5_Vector:
-    MMGS_Get_vectorSol(psl,&s[0],&s[1],&s[2]);
+    return MMGS_Get_vectorSol(psl,&s[0],&s[1],&s[2]);
     break;
 
   case MMG5_Tensor:
-    MMGS_Get_tensorSol(psl,&s[0],&s[1],&s[2],&s[3],&s[4],&s[5]);
+    return MMGS_Get_tensorSol(psl,&s[0],&s[1],&s[2],&s[3],&s[4],&s[5]);
     break;
 
   default:
@@ -1212,11 +1217,11 @@ int  MMGS_Set_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMGS_Set_vectorSols(psl,s);
+    return MMGS_Set_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMGS_Set_tensorSols(psl,s);
+    return MMGS_Set_tensorSols(psl,s);
     break;
 
   default:
@@ -1240,11 +1245,11 @@ int  MMGS_Get_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMGS_Get_vectorSols(psl,s);
+    return MMGS_Get_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMGS_Get_tensorSols(psl,s);
+    return MMGS_Get_tensorSols(psl,s);
     break;
 
   default:
-- 
2.43.0


From a4b05db86d096e441dc7179fe85f61ea6922c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:29 +0000
Subject: [PATCH 09/42] fix: the value of the last vertex was refused when the
 solution arrays have exactly the size of the mesh

---
 src/mmg2d/API_functions_2d.c | 6 +++---
 src/mmg3d/API_functions_3d.c | 6 +++---
 src/mmgs/API_functions_s.c   | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index dcfe4b9..151d13a 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -1451,7 +1451,7 @@ int MMG2D_Set_scalarSol(MMG5_pSol met, double s, MMG5_int pos) {
     return 0;
   }
 
-  if ( pos >= met->npmax ) {
+  if ( pos > met->npmax ) {
     fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",
             __func__);
     fprintf(stderr,"    max number of solutions: %" MMG5_PRId "\n",met->npmax);
@@ -1544,7 +1544,7 @@ int MMG2D_Set_vectorSol(MMG5_pSol met, double vx,double vy, MMG5_int pos) {
     fprintf(stderr,"    Minimal index of the solution position must be 1.\n");
     return 0;
   }
-  if ( pos >= met->npmax ) {
+  if ( pos > met->npmax ) {
     fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",
             __func__);
     fprintf(stderr,"    max number of solutions: %" MMG5_PRId "\n",met->npmax);
@@ -1650,7 +1650,7 @@ int MMG2D_Set_tensorSol(MMG5_pSol met, double m11, double m12, double m22,
     return 0;
   }
 
-  if ( pos >= met->npmax ) {
+  if ( pos > met->npmax ) {
     fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",
             __func__);
     fprintf(stderr,"    max number of solutions: %" MMG5_PRId "\n",met->npmax);
diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index d78d35f..b77b685 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -1445,7 +1445,7 @@ int MMG3D_Set_scalarSol(MMG5_pSol met, double s, MMG5_int pos) {
     fprintf(stderr,"    Minimal index of the solution position must be 1.\n");
     return 0;
   }
-  if ( pos >= met->npmax ) {
+  if ( pos > met->npmax ) {
     fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",__func__);
     fprintf(stderr,"    max number of solutions: %" MMG5_PRId "\n",met->npmax);
     return 0;
@@ -1535,7 +1535,7 @@ int MMG3D_Set_vectorSol(MMG5_pSol met, double vx,double vy, double vz, MMG5_int
     fprintf(stderr,"    Minimal index of the solution position must be 1.\n");
     return 0;
   }
-  if ( pos >= met->npmax ) {
+  if ( pos > met->npmax ) {
     fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",__func__);
     fprintf(stderr,"    max number of solutions: %" MMG5_PRId "\n",met->npmax);
     return 0;
@@ -1644,7 +1644,7 @@ int MMG3D_Set_tensorSol(MMG5_pSol met, double m11,double m12, double m13,
     fprintf(stderr,"    Minimal index of the solution position must be 1.\n");
     return 0;
   }
-  if ( pos >= met->npmax ) {
+  if ( pos > met->npmax ) {
     fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",__func__);
     fprintf(stderr,"    max number of solutions: %" MMG5_PRId "\n",met->npmax);
     return 0;
diff --git a/src/mmgs/API_functions_s.c b/src/mmgs/API_functions_s.c
index ebc4138..e821a8b 100644
--- a/src/mmgs/API_functions_s.c
+++ b/src/mmgs/API_functions_s.c
@@ -835,7 +835,7 @@ int MMGS_Set_scalarSol(MMG5_pSol met, double s, MMG5_int pos) {
     fprintf(stderr,"    Minimal index of the solution position must be 1.\n");
     return 0;
   }
-  if ( pos >= met->npmax ) {
+  if ( pos > met->npmax ) {
     fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",
             __func__);
     fprintf(stderr,"    max number of solutions: %" MMG5_PRId "\n",met->npmax);
@@ -926,7 +926,7 @@ int MMGS_Set_vectorSol(MMG5_pSol met, double vx,double vy, double vz, MMG5_int p
     fprintf(stderr,"    Minimal index of the solution position must be 1.\n");
     return 0;
   }
-  if ( pos >= met->npmax ) {
+  if ( pos > met->npmax ) {
     fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",
             __func__);
     fprintf(stderr,"    max number of solutions: %" MMG5_PRId "\n",met->npmax);
@@ -1035,7 +1035,7 @@ int MMGS_Set_tensorSol(MMG5_pSol met, double m11,double m12, double m13,
     fprintf(stderr,"    Minimal index of the solution position must be 1.\n");
     return 0;
   }
-  if ( pos >= met->npmax ) {
+  if ( pos > met->npmax ) {
     fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",
             __func__);
     fprintf(stderr,"    max number of solutions: %" MMG5_PRId "\n",met->npmax);
-- 
2.43.0


From 92c0748f7e941e3500b2633f9605e092590c8bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:48 +0000
Subject: [PATCH 10/42] fix: the isovalue was subtracted twice in the mmg3d
 boundary level-set mode

---
 src/mmg3d/mmg3d2s.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mmg3d/mmg3d2s.c b/src/mmg3d/mmg3d2s.c
index e3919cd..10c7b3d 100755
--- a/src/mmg3d/mmg3d2s.c
+++ b/src/mmg3d/mmg3d2s.c
@@ -130,15 +130,15 @@ int MMG3D_snpval_lssurf(MMG5_pMesh mesh,MMG5_pSol sol) {
   for (k=1; k<=mesh->np; k++) {
     p0 = &mesh->point[k];
     if ( !MG_VOK(p0) ) continue;
-    if ( fabs(sol->m[k]-mesh->info.ls) < MMG5_EPS ) {
+    if ( fabs(sol->m[k]) < MMG5_EPS ) {
       if ( mesh->info.ddebug )
         fprintf(stderr,"  ## Warning: %s: snapping value %" MMG5_PRId "; "
                 "previous value: %E.\n",__func__,k,fabs(sol->m[k]));
 
-      tmp[k] = ( fabs(sol->m[k]-mesh->info.ls) < MMG5_EPSD ) ?
-        (mesh->info.ls-100.0*MMG5_EPS) : sol->m[k];
+      tmp[k] = ( fabs(sol->m[k]) < MMG5_EPSD ) ?
+        (-100.0*MMG5_EPS) : sol->m[k];
       p0->flag = 1;
-      sol->m[k] = mesh->info.ls;
+      sol->m[k] = 0.0;
       ns++;
     }
   }
@@ -190,8 +190,8 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
 
         if ( p0->flag && p1->flag )  continue;
 
-        v0  = sol->m[ip0]-mesh->info.ls;
-        v1  = sol->m[ip1]-mesh->info.ls;
+        v0  = sol->m[ip0];
+        v1  = sol->m[ip1];
 
         if ( fabs(v0) > MMG5_EPSD2 && fabs(v1) > MMG5_EPSD2 && v0*v1 < 0.0 ) {
           nb ++;
@@ -258,8 +258,8 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
 
         p0 = &mesh->point[ip0];
         p1 = &mesh->point[ip1];
-        v0 = sol->m[ip0]-mesh->info.ls;
-        v1 = sol->m[ip1]-mesh->info.ls;
+        v0 = sol->m[ip0];
+        v1 = sol->m[ip1];
         if ( fabs(v0) < MMG5_EPSD2 || fabs(v1) < MMG5_EPSD2 )  continue;
         else if ( MG_SMSGN(v0,v1) )  continue;
         else if ( !p0->flag || !p1->flag )  continue;
@@ -311,7 +311,7 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
           }
         }
 
-        sol->m[np] = mesh->info.ls;
+        sol->m[np] = 0.0;
 
         /* If user provide a metric, interpolate it at the new point */
         if ( met && met->m ) {
@@ -439,7 +439,7 @@ int MMG3D_setref_lssurf(MMG5_pMesh mesh, MMG5_pSol sol) {
       /* Set face ref */
       for (j=0; j<3; j++) {
         ip = pt->v[MMG5_idir[i][j]];
-        v  = sol->m[ip]-mesh->info.ls;
+        v  = sol->m[ip];
         if ( v > 0.0 )
           npls++;
         else if ( v < 0.0 )
-- 
2.43.0


From 3384a51c285b41dcc88844791479a0197ba55f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:48 +0000
Subject: [PATCH 11/42] fix: vertices of a boundary level-set got the default
 reference instead of the user one

---
 src/common/mmg2s.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/mmg2s.c b/src/common/mmg2s.c
index 27ecf1f..e997d1c 100644
--- a/src/common/mmg2s.c
+++ b/src/common/mmg2s.c
@@ -204,11 +204,11 @@ int MMG5_setref_lssurf(MMG5_pMesh mesh, MMG5_pSol sol){
     }
   }
 
-  /* Set MG_ISO ref at vertices on the ls */
+  /* Set isoref at vertices on the ls */
   for (k=1; k<=mesh->np; k++) {
     v = sol->m[k];
     if ( v == 0.0 ) {
-      mesh->point[k].ref = MG_ISO;
+      mesh->point[k].ref = mesh->info.isoref;
     }
   }
 
-- 
2.43.0


From 064f6cbf828558f401484d3dd6fd8fd8d6c3b7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:57 +0000
Subject: [PATCH 12/42] fix: looking up a material reference out of the table
 read memory out of bounds

---
 src/common/mmg2.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/mmg2.c b/src/common/mmg2.c
index c278029..4b233a0 100644
--- a/src/common/mmg2.c
+++ b/src/common/mmg2.c
@@ -68,6 +68,9 @@ static int MMG5_InvMat_code(int k,int attr) {
  */
 static int MMG5_InvMat_getIndex(MMG5_pInvMat pim,int ref) {
   int key = MMG5_InvMat_key(pim,ref);
+  /* References outside of the table are not listed */
+  if ( key < 0 || key >= pim->size ) return -1;
+
   /* The parent index is stored as 4*(k+1) */
   return (pim->lookup[key] / 4 - 1);
 }
@@ -83,6 +86,9 @@ static int MMG5_InvMat_getIndex(MMG5_pInvMat pim,int ref) {
  */
 static int MMG5_InvMat_getAttrib(MMG5_pInvMat pim,int ref) {
   int key = MMG5_InvMat_key(pim,ref);
+  /* References outside of the table are not listed */
+  if ( key < 0 || key >= pim->size ) return 0;
+
   /* The nosplit/split/plus/minus attribute is stored as the rest of the
    * integer division. */
   return (pim->lookup[key] % 4);
-- 
2.43.0


From 9ee0d607f0587f1556cb879fb05e9a7f4da7e30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:57 +0000
Subject: [PATCH 13/42] fix: wrong opposite vertex in the detection of isolated
 zero values of the level-set

---
 src/common/mmg2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/mmg2.c b/src/common/mmg2.c
index 4b233a0..fb91f4c 100644
--- a/src/common/mmg2.c
+++ b/src/common/mmg2.c
@@ -585,7 +585,7 @@ int MMG5_snpval_ls(MMG5_pMesh mesh,MMG5_pSol sol) {
         iel = list[kk] / 3;
         j = list[kk] % 3;
         j1 = MMG5_inxt2[j];
-        j2 = MMG5_iprv2[i];
+        j2 = MMG5_iprv2[j];
         pt1 = &mesh->tria[iel];
         ip1 = pt1->v[j1];
         ip2 = pt1->v[j2];
-- 
2.43.0


From 27e0d350e4b31a879f76737f5b768f42ccd8c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:29 +0000
Subject: [PATCH 14/42] fix: MMG2D_splitbar cleared the attributes of outer
 edges and kept them on inner ones

---
 src/mmg2d/split_2d.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mmg2d/split_2d.c b/src/mmg2d/split_2d.c
index f87344f..7bbe43c 100644
--- a/src/mmg2d/split_2d.c
+++ b/src/mmg2d/split_2d.c
@@ -794,14 +794,14 @@ int MMG2D_splitbar(MMG5_pMesh mesh,MMG5_int k,MMG5_int ip) {
   pt1->v[2] = ip;
   pt2->v[0] = ip;
 
-  pt->tag[1] = MG_NOTAG;
-  pt->edg[1] = 0;
+  pt->tag[0] = pt->tag[2] = MG_NOTAG;
+  pt->edg[0] = pt->edg[2] = 0;
 
-  pt1->tag[2] = MG_NOTAG;
-  pt1->edg[2] = 0;
+  pt1->tag[0] = pt1->tag[1] = MG_NOTAG;
+  pt1->edg[0] = pt1->edg[1] = 0;
 
-  pt2->tag[0] = MG_NOTAG;
-  pt2->edg[0] = 0;
+  pt2->tag[1] = pt2->tag[2] = MG_NOTAG;
+  pt2->edg[1] = pt2->edg[2] = 0;
 
   /* Update external adjacencies */
 #ifndef NDEBUG
-- 
2.43.0


From 394d3b9f4e15976df3abeddc47c1e0808c62fffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:29 +0000
Subject: [PATCH 15/42] fix: MMG2D_splitbar used the triangle array after its
 reallocation

---
 src/mmg2d/split_2d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmg2d/split_2d.c b/src/mmg2d/split_2d.c
index 7bbe43c..db14552 100644
--- a/src/mmg2d/split_2d.c
+++ b/src/mmg2d/split_2d.c
@@ -769,6 +769,7 @@ int MMG2D_splitbar(MMG5_pMesh mesh,MMG5_int k,MMG5_int ip) {
                         printf("  Exit program.\n");return 0);
   }
 
+  pt = &mesh->tria[k];
   pt->flag = 0;
   pt->base = mesh->base;
 
-- 
2.43.0


From c61b79a6a0de8c8b842875bfa62e7421ed26448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:30 +0000
Subject: [PATCH 16/42] fix: MMG5_split6 tagged the new edges from an
 uninitialised variable

---
 src/mmg3d/split_3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/split_3d.c b/src/mmg3d/split_3d.c
index d48af88..890f4c4 100644
--- a/src/mmg3d/split_3d.c
+++ b/src/mmg3d/split_3d.c
@@ -4518,7 +4518,7 @@ int MMG5_split6(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,MMG5_int vx[6],int8_t m
 
   /* Store face tags and refs from split tetra*/
   for (i=0; i<4; i++) {
-    ftag[i] = (xt.ftag[i] & ~MG_REF);
+    ftag[i] = (xt0.ftag[i] & ~MG_REF);
   }
 
   /* Modify first tetra */
-- 
2.43.0


From 1782542e5aa1b8fe674024918aa8a68b2c51513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:36 +0000
Subject: [PATCH 17/42] fix: MMG5_split3op marked the wrong face of a new
 tetrahedron as well oriented

---
 src/mmg3d/split_3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/split_3d.c b/src/mmg3d/split_3d.c
index 890f4c4..8953e4b 100644
--- a/src/mmg3d/split_3d.c
+++ b/src/mmg3d/split_3d.c
@@ -2816,7 +2816,7 @@ int MMG5_split3op(MMG5_pMesh mesh, MMG5_pSol met, MMG5_int k, MMG5_int vx[6],int
     xt[1].edg[ie3] = 0;  xt[1].edg[ie4] = 0;
     xt[1].ref [ip0] = 0 ; xt[1].ref [ip2] = 0 ; xt[1].ref [ip3] = 0 ;
     xt[1].ftag[ip0] = 0 ; xt[1].ftag[ip2] = 0 ; xt[1].ftag[ip3] = 0 ;
-    MG_SET(xt[1].ori, ip1); MG_SET(xt[1].ori, ip2); MG_SET(xt[1].ori, ip3);
+    MG_SET(xt[1].ori, ip0); MG_SET(xt[1].ori, ip2); MG_SET(xt[1].ori, ip3);
 
     pt[2]->v[ip0] = vx[ie0] ; pt[2]->v[ip2] = vx[ie5] ;
     xt[2].tag[ie1] = 0;  xt[2].tag[ie2] = ftag[ip2];
-- 
2.43.0


From 5026ea4270d71b9d19f9907ccd9e7aa70a35b1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:52 +0000
Subject: [PATCH 18/42] fix: MMG5_split6 gave a new edge the tag of a face it
 does not belong to

---
 src/mmg3d/split_3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/split_3d.c b/src/mmg3d/split_3d.c
index 8953e4b..178c619 100644
--- a/src/mmg3d/split_3d.c
+++ b/src/mmg3d/split_3d.c
@@ -4762,7 +4762,7 @@ int MMG5_split6(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,MMG5_int vx[6],int8_t m
     xt.tag[3] = ftag[3];  xt.tag[4] = ftag[0];
     xt.edg[1] = 0;  xt.edg[2] = 0;
     xt.edg[3] = 0;  xt.edg[4] = 0;
-    xt.tag[5] = ftag[3];  xt.edg[5] = 0;
+    xt.tag[5] = ftag[1];  xt.edg[5] = 0;
     xt.ref [0] = 0 ; xt.ref [2] = 0 ; xt.ref [3] = 0;
     xt.ftag[0] = 0 ; xt.ftag[2] = 0 ; xt.ftag[3] = 0;
     MG_SET(xt.ori, 0); MG_SET(xt.ori, 2); MG_SET(xt.ori, 3);
-- 
2.43.0


From b4f31cafcd41ce330887f10da9adae5fbe128a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:09 +0000
Subject: [PATCH 19/42] fix: split the tetra of a kept material along every
 combination of edges cut by its neighbours

---
 src/mmg3d/mmg3d2.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mmg3d/mmg3d2.c b/src/mmg3d/mmg3d2.c
index 094f96b..a2e5342 100644
--- a/src/mmg3d/mmg3d2.c
+++ b/src/mmg3d/mmg3d2.c
@@ -1222,11 +1222,25 @@ int MMG3D_cuttet_ls(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
       ns++;
       break;
 
+    case 12: case 18: case 33: /* 2 edges (opposite face) split: only if the
+                                * tetra material is not splitted */
+      ier = MMG5_split2(mesh,met,k,vx,1);
+      ns++;
+      break;
+
     case 7: case 25: case 42: case 52: /* 3 edges on conic configuration splitted */
       ier = MMG5_split3cone(mesh,met,k,vx,1);
       ns++;
       break;
 
+    case 35: case 19: case 13: case 37: case 22: case 28: case 26:
+    case 14: case 49: case 50: case 44: case 41: /* 3 edges on opposite conf
+                                                  * splitted: only if the tetra
+                                                  * material is not splitted */
+      ier = MMG5_split3op(mesh,met,k,vx,1);
+      ns++;
+      break;
+
     case 30: case 45: case 51:
       ier = MMG5_split4op(mesh,met,k,vx,1);
       ns++;
-- 
2.43.0


From b25bb2c607953670ecc7b946c93ba03a8f07e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:25 +0000
Subject: [PATCH 20/42] fix: level-set cutting succeeds when only kept
 materials are crossed

---
 src/mmg2d/mmg2d6.c  | 2 +-
 src/mmg3d/mmg3d2.c  | 2 +-
 src/mmg3d/mmg3d2s.c | 2 +-
 src/mmgs/mmgs2.c    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mmg2d/mmg2d6.c b/src/mmg2d/mmg2d6.c
index 23e32bb..a1b17b1 100644
--- a/src/mmg2d/mmg2d6.c
+++ b/src/mmg2d/mmg2d6.c
@@ -196,7 +196,7 @@ int MMG2D_cuttri(MMG5_pMesh mesh, MMG5_pSol sol, MMG5_pSol met){
     fprintf(stdout,"     %7" MMG5_PRId " splitted\n",ns);
 
   MMG5_DEL_MEM(mesh,hash.item);
-  return ns;
+  return 1;
 
 }
 
diff --git a/src/mmg3d/mmg3d2.c b/src/mmg3d/mmg3d2.c
index a2e5342..63220e9 100644
--- a/src/mmg3d/mmg3d2.c
+++ b/src/mmg3d/mmg3d2.c
@@ -1256,7 +1256,7 @@ int MMG3D_cuttet_ls(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
     fprintf(stdout,"     %7" MMG5_PRId " splitted\n",ns);
 
   MMG5_DEL_MEM(mesh,hash.item);
-  return ns;
+  return 1;
 }
 
 
diff --git a/src/mmg3d/mmg3d2s.c b/src/mmg3d/mmg3d2s.c
index 10c7b3d..9e674ea 100755
--- a/src/mmg3d/mmg3d2s.c
+++ b/src/mmg3d/mmg3d2s.c
@@ -405,7 +405,7 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
     fprintf(stdout,"     %7" MMG5_PRId " splitted\n",ns);
 
   MMG5_DEL_MEM(mesh,hash.item);
-  return ns;
+  return 1;
 }
 
 /**
diff --git a/src/mmgs/mmgs2.c b/src/mmgs/mmgs2.c
index 0b68f15..5d963ce 100644
--- a/src/mmgs/mmgs2.c
+++ b/src/mmgs/mmgs2.c
@@ -224,7 +224,7 @@ static int MMGS_cuttri(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
     mesh->point[k].flag = 0;
 
   MMG5_DEL_MEM(mesh,hash.item);
-  return ns;
+  return 1;
 
 }
 
-- 
2.43.0


From ded40944c1c17a17d62dd52b09487a48638b812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:25 +0000
Subject: [PATCH 21/42] fix: report the failure to hash required edges in
 level-set cutting

---
 src/mmg3d/mmg3d2.c  | 4 ++--
 src/mmg3d/mmg3d2s.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mmg3d/mmg3d2.c b/src/mmg3d/mmg3d2.c
index 63220e9..cc0feaf 100644
--- a/src/mmg3d/mmg3d2.c
+++ b/src/mmg3d/mmg3d2.c
@@ -1075,7 +1075,7 @@ int MMG3D_cuttet_ls(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
         ip0 = pt->v[MMG5_iare[ia][0]];
         ip1 = pt->v[MMG5_iare[ia][1]];
         np  = -1;
-        if ( !MMG5_hashEdge(mesh,&hash,ip0,ip1,np) )  return -1;
+        if ( !MMG5_hashEdge(mesh,&hash,ip0,ip1,np) )  return 0;
       }
       continue;
     }
@@ -1092,7 +1092,7 @@ int MMG3D_cuttet_ls(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
         ip0 = pt->v[MMG5_idir[ia][MMG5_inxt2[j]]];
         ip1 = pt->v[MMG5_idir[ia][MMG5_iprv2[j]]];
         np  = -1;
-        if ( !MMG5_hashEdge(mesh,&hash,ip0,ip1,np) )  return -1;
+        if ( !MMG5_hashEdge(mesh,&hash,ip0,ip1,np) )  return 0;
       }
     }
   }
diff --git a/src/mmg3d/mmg3d2s.c b/src/mmg3d/mmg3d2s.c
index 9e674ea..203bfb1 100755
--- a/src/mmg3d/mmg3d2s.c
+++ b/src/mmg3d/mmg3d2s.c
@@ -217,7 +217,7 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
         ip0 = pt->v[MMG5_iare[ia][0]];
         ip1 = pt->v[MMG5_iare[ia][1]];
         np  = -1;
-        if ( !MMG5_hashEdge(mesh,&hash,ip0,ip1,np) )  return -1;
+        if ( !MMG5_hashEdge(mesh,&hash,ip0,ip1,np) )  return 0;
       }
       continue;
     }
@@ -234,7 +234,7 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
         ip0 = pt->v[MMG5_idir[ia][MMG5_inxt2[j]]];
         ip1 = pt->v[MMG5_idir[ia][MMG5_iprv2[j]]];
         np  = -1;
-        if ( !MMG5_hashEdge(mesh,&hash,ip0,ip1,np) )  return -1;
+        if ( !MMG5_hashEdge(mesh,&hash,ip0,ip1,np) )  return 0;
       }
     }
   }
-- 
2.43.0


From 8c68761a05193ec056bbac391d289225d61abdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:20 +0000
Subject: [PATCH 22/42] fix: grow both the level-set and the metric when
 cutting needs more points

---
 src/mmg2d/mmg2d6.c | 12 +++++++++++-
 src/mmgs/mmgs2.c   | 10 ++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/mmg2d/mmg2d6.c b/src/mmg2d/mmg2d6.c
index a1b17b1..75777fb 100644
--- a/src/mmg2d/mmg2d6.c
+++ b/src/mmg2d/mmg2d6.c
@@ -137,12 +137,22 @@ int MMG2D_cuttri(MMG5_pMesh mesh, MMG5_pSol sol, MMG5_pSol met){
       np = MMG2D_newPt(mesh,c,0);
       if ( !np ) {
        /* reallocation of point table */
-        MMG2D_POINT_REALLOC(mesh,met,np,mesh->gap,
+        MMG2D_POINT_REALLOC(mesh,sol,np,mesh->gap,
                             fprintf(stderr,"\n  ## Error: %s: unable to"
                                     " allocate a new point.\n",__func__);
                             MMG5_INCREASE_MEM_MESSAGE();
                             return 0;,
                             c,0);
+        if ( met ) {
+          if ( met->m ) {
+            MMG5_ADD_MEM(mesh,(met->size*(mesh->npmax-met->npmax))*sizeof(double),
+                         "larger solution",return 0);
+            MMG5_SAFE_REALLOC(met->m,met->size*(met->npmax+1),
+                              met->size*(mesh->npmax+1),
+                              double,"larger solution",return 0);
+          }
+          met->npmax = mesh->npmax;
+        }
       }
       sol->m[np] = 0.0;
       /* If there is a metric in the mesh, interpolate it at the new point */
diff --git a/src/mmgs/mmgs2.c b/src/mmgs/mmgs2.c
index 5d963ce..568f6f9 100644
--- a/src/mmgs/mmgs2.c
+++ b/src/mmgs/mmgs2.c
@@ -148,6 +148,16 @@ static int MMGS_cuttri(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
                             MMG5_INCREASE_MEM_MESSAGE();
                             return 0
                             ,c,NULL);
+        if ( met ) {
+          if ( met->m ) {
+            MMG5_ADD_MEM(mesh,(met->size*(mesh->npmax-met->npmax))*sizeof(double),
+                         "larger solution",return 0);
+            MMG5_SAFE_REALLOC(met->m,met->size*(met->npmax+1),
+                              met->size*(mesh->npmax+1),
+                              double,"larger solution",return 0);
+          }
+          met->npmax = mesh->npmax;
+        }
       }
       sol->m[np] = 0.0;
 
-- 
2.43.0


From cbb01a173e8b6b496b69f6db75455de14e0fb4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:28 +0000
Subject: [PATCH 23/42] fix: Fortran entry points release name buffers the way
 they were allocated

The buffer was obtained with malloc but released with MMG5_SAFE_FREE (myfree),
which frees the address 8 bytes before it: the heap is corrupted (abort).
---
 src/common/API_functionsf.c | 8 ++++----
 src/mmg2d/libmmg2d_toolsf.c | 2 +-
 src/mmg3d/libmmg3d_toolsf.c | 2 +-
 src/mmgs/libmmgs_toolsf.c   | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/common/API_functionsf.c b/src/common/API_functionsf.c
index 6b94a51..5132a3c 100644
--- a/src/common/API_functionsf.c
+++ b/src/common/API_functionsf.c
@@ -58,7 +58,7 @@ FORTRAN_NAME(MMG5_SET_INPUTMESHNAME, mmg5_set_inputmeshname,
              (mesh,meshin,strlen,retval)) {
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,meshin,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMG5_Set_inputMeshName(*mesh,tmp);
@@ -76,7 +76,7 @@ FORTRAN_NAME(MMG5_SET_INPUTSOLNAME, mmg5_set_inputsolname,
 
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,solin,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMG5_Set_inputSolName(*mesh,*sol,tmp);
@@ -94,7 +94,7 @@ FORTRAN_NAME(MMG5_SET_OUTPUTMESHNAME,mmg5_set_outputmeshname,
              (mesh,meshout,strlen,retval)){
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,meshout,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMG5_Set_outputMeshName(*mesh, tmp);
@@ -111,7 +111,7 @@ FORTRAN_NAME(MMG5_SET_OUTPUTSOLNAME,mmg5_set_outputsolname,
              (mesh,sol,solout,strlen,retval)){
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,solout,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMG5_Set_outputSolName(*mesh,*sol,tmp);
diff --git a/src/mmg2d/libmmg2d_toolsf.c b/src/mmg2d/libmmg2d_toolsf.c
index 075a5e5..fb80833 100644
--- a/src/mmg2d/libmmg2d_toolsf.c
+++ b/src/mmg2d/libmmg2d_toolsf.c
@@ -210,7 +210,7 @@ FORTRAN_NAME(MMG2D_USAGE,mmg2d_usage,
              (prog,strlen)) {
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,prog,*strlen);
   tmp[*strlen] = '\0';
   MMG2D_usage(tmp);
diff --git a/src/mmg3d/libmmg3d_toolsf.c b/src/mmg3d/libmmg3d_toolsf.c
index cbfefb1..5f47ac5 100644
--- a/src/mmg3d/libmmg3d_toolsf.c
+++ b/src/mmg3d/libmmg3d_toolsf.c
@@ -84,7 +84,7 @@ FORTRAN_NAME(MMG3D_USAGE,mmg3d_usage,
              (prog,strlen)) {
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,prog,*strlen);
   tmp[*strlen] = '\0';
   MMG3D_usage(tmp);
diff --git a/src/mmgs/libmmgs_toolsf.c b/src/mmgs/libmmgs_toolsf.c
index 417685f..b8f206d 100644
--- a/src/mmgs/libmmgs_toolsf.c
+++ b/src/mmgs/libmmgs_toolsf.c
@@ -82,7 +82,7 @@ FORTRAN_NAME(MMGS_USAGE,mmgs_usage,
              (prog,strlen,retval)) {
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,prog,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMGS_usage(tmp);
-- 
2.43.0


From dd89b4c932d531bf5a1afe469e5c98f7efaaf812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:28 +0000
Subject: [PATCH 24/42] fix: hand back the result in the Fortran mmg3d/2d_usage
 and mmg3d_defaultvalues

The documented interface has a retval argument, which was never written.
---
 src/mmg2d/libmmg2d_toolsf.c |  6 +++---
 src/mmg3d/libmmg3d_toolsf.c | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mmg2d/libmmg2d_toolsf.c b/src/mmg2d/libmmg2d_toolsf.c
index fb80833..16c4915 100644
--- a/src/mmg2d/libmmg2d_toolsf.c
+++ b/src/mmg2d/libmmg2d_toolsf.c
@@ -206,14 +206,14 @@ FORTRAN_NAME(MMG2D_SET_CONSTANTSIZE,mmg2d_set_constantsize,
  * See \ref MMG2D_usage function in \ref mmg2d/libmmg2d.h file.
  */
 FORTRAN_NAME(MMG2D_USAGE,mmg2d_usage,
-             (char *prog, int *strlen),
-             (prog,strlen)) {
+             (char *prog, int *strlen, int *retval),
+             (prog,strlen,retval)) {
   char *tmp = NULL;
 
   MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,prog,*strlen);
   tmp[*strlen] = '\0';
-  MMG2D_usage(tmp);
+  *retval = MMG2D_usage(tmp);
   MMG5_SAFE_FREE(tmp);
 
   return;
diff --git a/src/mmg3d/libmmg3d_toolsf.c b/src/mmg3d/libmmg3d_toolsf.c
index 5f47ac5..0299901 100644
--- a/src/mmg3d/libmmg3d_toolsf.c
+++ b/src/mmg3d/libmmg3d_toolsf.c
@@ -80,14 +80,14 @@ FORTRAN_NAME(MMG3D_GET_NONBDYTRIANGLE,mmg3d_get_nonbdytriangle,
  * See \ref MMG3D_usage function in \ref mmg3d/libmmg3d.h file.
  */
 FORTRAN_NAME(MMG3D_USAGE,mmg3d_usage,
-             (char *prog, int *strlen),
-             (prog,strlen)) {
+             (char *prog, int *strlen, int *retval),
+             (prog,strlen,retval)) {
   char *tmp = NULL;
 
   MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,prog,*strlen);
   tmp[*strlen] = '\0';
-  MMG3D_usage(tmp);
+  *retval = MMG3D_usage(tmp);
   MMG5_SAFE_FREE(tmp);
 
   return;
@@ -109,9 +109,9 @@ FORTRAN_NAME(MMG3D_PARSOP,mmg3d_parsop,
  * See \ref MMG3D_defaultValues function in \ref mmg3d/libmmg3d.h file.
  */
 FORTRAN_NAME(MMG3D_DEFAULTVALUES,mmg3d_defaultvalues,
-             (MMG5_pMesh *mesh),
-             (mesh)) {
-  MMG3D_defaultValues(*mesh);
+             (MMG5_pMesh *mesh, int *retval),
+             (mesh,retval)) {
+  *retval = MMG3D_defaultValues(*mesh);
   return;
 }
 
-- 
2.43.0


From 5966847f10f8edd221457dd1c731a12abb2223db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:36 +0000
Subject: [PATCH 25/42] fix: name of the Fortran entry point of
 MMG3D_switch_metricStorage

It was misspelled (swith), so the documented subroutine did not exist.
---
 src/mmg3d/API_functionsf_3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/API_functionsf_3d.c b/src/mmg3d/API_functionsf_3d.c
index 0c56932..32a3ddd 100644
--- a/src/mmg3d/API_functionsf_3d.c
+++ b/src/mmg3d/API_functionsf_3d.c
@@ -1437,7 +1437,7 @@ FORTRAN_NAME(MMG3D_SAVEALLSOLS,mmg3d_saveallsols,
 /**
  * See \ref MMG3D_switch_metricStorage function in \ref mmg3d/libmmg3d.h file.
  */
-FORTRAN_NAME(MMG3D_SWITCH_METRIC_STORAGE,mmg3d_swith_metricstorage,
+FORTRAN_NAME(MMG3D_SWITCH_METRICSTORAGE,mmg3d_switch_metricstorage,
              (MMG5_pMesh *mesh,MMG5_pSol *met,int* retval),
              (mesh,met,retval)){
 
-- 
2.43.0


From f871ad3466496f614d87211409a5ad22d97eb70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:47 +0000
Subject: [PATCH 26/42] fix: restore table sizes and free list when a growth
 fails half-way

When the budget allows the points (elements) to grow but not the solution
(adjacency), the free list offered slots beyond the solution or adjacency
arrays; in 3D a full point table lost its last vertex.
---
 src/mmg2d/libmmg2d_private.h | 17 ++++++++++++++---
 src/mmg3d/libmmg3d_private.h |  9 ++++++---
 src/mmgs/libmmgs_private.h   | 17 ++++++++++++++---
 3 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/mmg2d/libmmg2d_private.h b/src/mmg2d/libmmg2d_private.h
index a700cf5..9ca0265 100644
--- a/src/mmg2d/libmmg2d_private.h
+++ b/src/mmg2d/libmmg2d_private.h
@@ -116,9 +116,10 @@ static const unsigned int MMG2D_idir[5] = {0,1,2,0,1};
     of point ip with coordinates o and tag tag*/
 #define MMG2D_POINT_REALLOC(mesh,sol,ip,wantedGap,law,o,tag ) do       \
   {                                                                     \
-    MMG5_int klink;                                                     \
+    MMG5_int klink,oldnpmax;                                            \
                                                                         \
     assert ( mesh && mesh->point );                                     \
+    oldnpmax = mesh->npmax;                                             \
     MMG5_TAB_RECALLOC(mesh,mesh->point,mesh->npmax,wantedGap,MMG5_Point, \
                        "larger point table",law);                       \
                                                                         \
@@ -130,7 +131,12 @@ static const unsigned int MMG2D_idir[5] = {0,1,2,0,1};
     if ( sol ) {                                                        \
       if ( sol->m ) {                                                   \
         MMG5_ADD_MEM(mesh,(sol->size*(mesh->npmax-sol->npmax))*sizeof(double), \
-                     "larger solution",law);                            \
+                     "larger solution",                                 \
+                     MMG5_SAFE_RECALLOC(mesh->point,mesh->npmax+1,oldnpmax+1,MMG5_Point,,);\
+                     mesh->memCur -= (mesh->npmax - oldnpmax)*sizeof(MMG5_Point);\
+                     mesh->npmax = oldnpmax;                            \
+                     mesh->npnil = 0;                                   \
+                     law);                                              \
         MMG5_SAFE_REALLOC(sol->m,sol->size*(sol->npmax+1),              \
                           sol->size*(mesh->npmax+1),                    \
                           double,"larger solution",law);                \
@@ -173,7 +179,12 @@ static const unsigned int MMG2D_idir[5] = {0,1,2,0,1};
    if ( mesh->adja ) {                                                  \
      /* adja table */                                                   \
      MMG5_ADD_MEM(mesh,3*(mesh->ntmax-oldSiz)*sizeof(MMG5_int),         \
-                   "larger adja table",law);                            \
+                   "larger adja table",                                 \
+                   MMG5_SAFE_RECALLOC(mesh->tria,mesh->ntmax+1,oldSiz+1,MMG5_Tria,,);\
+                   mesh->memCur -= (mesh->ntmax - oldSiz)*sizeof(MMG5_Tria);\
+                   mesh->ntmax = oldSiz;                                \
+                   mesh->nenil = 0;                                     \
+                   law);                                                \
      MMG5_SAFE_RECALLOC(mesh->adja,3*oldSiz+5,3*mesh->ntmax+5,MMG5_int  \
                          ,"larger adja table",law);                     \
    }                                                                    \
diff --git a/src/mmg3d/libmmg3d_private.h b/src/mmg3d/libmmg3d_private.h
index 9c298d1..772c4b8 100644
--- a/src/mmg3d/libmmg3d_private.h
+++ b/src/mmg3d/libmmg3d_private.h
@@ -72,7 +72,6 @@ extern "C" {
                    MMG5_SAFE_RECALLOC(mesh->point,mesh->npmax+1,oldnpmax+1,MMG5_Point,,); \
                    mesh->memCur -= (mesh->npmax - oldnpmax)*sizeof(MMG5_Point); \
                    mesh->npmax = oldnpmax;                              \
-                   mesh->np = mesh->npmax-1;                            \
                    mesh->npnil = 0;                                     \
                    law);                                                \
       MMG5_SAFE_REALLOC(sol->m,sol->size*(sol->npmax+1),                \
@@ -81,7 +80,6 @@ extern "C" {
                         MMG5_SAFE_RECALLOC(mesh->point,mesh->npmax+1,oldnpmax+1,MMG5_Point,,); \
                         mesh->memCur -= (mesh->npmax - oldnpmax)*sizeof(MMG5_Point); \
                         mesh->npmax = oldnpmax;                         \
-                        mesh->np = mesh->npmax-1;                       \
                         mesh->npnil = 0;                                \
                         law);                                           \
     }                                                                   \
@@ -124,7 +122,12 @@ extern "C" {
   if ( mesh->adja ) {                                                   \
     /* adja table */                                                    \
     MMG5_ADD_MEM(mesh,4*(mesh->nemax-oldSiz)*sizeof(MMG5_int),          \
-                 "larger adja table",law);                              \
+                 "larger adja table",                                   \
+                 MMG5_SAFE_RECALLOC(mesh->tetra,mesh->nemax+1,oldSiz+1,MMG5_Tetra,,); \
+                 mesh->memCur -= (mesh->nemax - oldSiz)*sizeof(MMG5_Tetra); \
+                 mesh->nemax = oldSiz;                                  \
+                 mesh->nenil = 0;                                       \
+                 law);                                                  \
     MMG5_SAFE_RECALLOC(mesh->adja,4*oldSiz+5,4*mesh->nemax+5,MMG5_int   \
                        ,"larger adja table",law);                       \
   }                                                                     \
diff --git a/src/mmgs/libmmgs_private.h b/src/mmgs/libmmgs_private.h
index 5334a98..32d96a4 100644
--- a/src/mmgs/libmmgs_private.h
+++ b/src/mmgs/libmmgs_private.h
@@ -65,8 +65,9 @@ extern "C" {
     of point ip with coordinates o and tag tag*/
 #define MMGS_POINT_REALLOC(mesh,sol,ip,wantedGap,law,o,tag ) do        \
   {                                                                     \
-    MMG5_int klink;                                                     \
+    MMG5_int klink,oldnpmax;                                            \
     assert ( mesh && mesh->point );                                     \
+    oldnpmax = mesh->npmax;                                             \
     MMG5_TAB_RECALLOC(mesh,mesh->point,mesh->npmax,wantedGap,MMG5_Point, \
                        "larger point table",law);                       \
                                                                         \
@@ -77,7 +78,12 @@ extern "C" {
     /* solution */                                                      \
     if ( sol->m ) {                                                     \
       MMG5_ADD_MEM(mesh,(sol->size*(mesh->npmax-sol->npmax))*sizeof(double), \
-                    "larger solution",law);                             \
+                    "larger solution",                                  \
+                    MMG5_SAFE_RECALLOC(mesh->point,mesh->npmax+1,oldnpmax+1,MMG5_Point,,);\
+                    mesh->memCur -= (mesh->npmax - oldnpmax)*sizeof(MMG5_Point);\
+                    mesh->npmax = oldnpmax;                             \
+                    mesh->npnil = 0;                                    \
+                    law);                                               \
       MMG5_SAFE_REALLOC(sol->m,sol->size*(sol->npmax+1),               \
                          sol->size*(mesh->npmax+1),double,              \
                          "larger solution",law);                        \
@@ -109,7 +115,12 @@ extern "C" {
     if ( mesh->adja ) {                                                 \
       /* adja table */                                                  \
       MMG5_ADD_MEM(mesh,3*(mesh->ntmax-oldSiz)*sizeof(MMG5_int),        \
-                    "larger adja table",law);                           \
+                    "larger adja table",                                \
+                    MMG5_SAFE_RECALLOC(mesh->tria,mesh->ntmax+1,oldSiz+1,MMG5_Tria,,);\
+                    mesh->memCur -= (mesh->ntmax - oldSiz)*sizeof(MMG5_Tria);\
+                    mesh->ntmax = oldSiz;                               \
+                    mesh->nenil = 0;                                    \
+                    law);                                               \
       MMG5_SAFE_RECALLOC(mesh->adja,3*oldSiz+5,3*mesh->ntmax+5,MMG5_int \
                           ,"larger adja table",law);                    \
     }                                                                   \
-- 
2.43.0


From a96b21fa235f4529388196acb74f316eaa4925f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:47 +0000
Subject: [PATCH 27/42] fix: MMG3D_newPt loses no free vertex when the boundary
 data cannot grow

The slot had already been taken off the free list and the boundary count
raised beyond its table when the refusal was returned.
---
 src/mmg3d/zaldy_3d.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mmg3d/zaldy_3d.c b/src/mmg3d/zaldy_3d.c
index d612924..4f9ba18 100644
--- a/src/mmg3d/zaldy_3d.c
+++ b/src/mmg3d/zaldy_3d.c
@@ -42,6 +42,14 @@ MMG5_int MMG3D_newPt(MMG5_pMesh mesh,double c[3],uint16_t tag,MMG5_int src) {
   MMG5_int     curpt;
 
   if ( !mesh->npnil )  return 0;
+
+  if ( (tag & MG_BDY) && mesh->xp+1 > mesh->xpmax ) {
+    /* reallocation of xpoint table */
+    MMG5_TAB_RECALLOC(mesh,mesh->xpoint,mesh->xpmax,MMG5_GAP,MMG5_xPoint,
+                       "larger xpoint table",
+                       return 0);
+  }
+
   curpt = mesh->npnil;
   if ( mesh->npnil > mesh->np )  mesh->np = mesh->npnil;
   ppt   = &mesh->point[curpt];
@@ -55,12 +63,6 @@ MMG5_int MMG3D_newPt(MMG5_pMesh mesh,double c[3],uint16_t tag,MMG5_int src) {
   /* point on geometry */
   if ( tag & MG_BDY ) {
     mesh->xp++;
-    if(mesh->xp > mesh->xpmax){
-      /* reallocation of xpoint table */
-      MMG5_TAB_RECALLOC(mesh,mesh->xpoint,mesh->xpmax,MMG5_GAP,MMG5_xPoint,
-                         "larger xpoint table",
-                         return 0);
-    }
     ppt->xp  = mesh->xp;
   }
   assert(tag <= MG_NUL*2-1 && "Value for tag is valid");
-- 
2.43.0


From 1c9a2ec726a567891a1518afe4085d5e0d056012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:57 +0000
Subject: [PATCH 28/42] fix: stop inserting when the point table cannot grow

A break given to MMG3D_POINT_REALLOC only left the inner macro; the code went
on to take a vertex beyond the end of the point table.
---
 src/mmg3d/mmg3d1_pattern.c |  2 +-
 src/mmg3d/split_3d.c       | 17 ++++++-----------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/mmg3d/mmg3d1_pattern.c b/src/mmg3d/mmg3d1_pattern.c
index 6432719..8542d6b 100644
--- a/src/mmg3d/mmg3d1_pattern.c
+++ b/src/mmg3d/mmg3d1_pattern.c
@@ -143,7 +143,7 @@ static MMG5_int MMG5_adpspl(MMG5_pMesh mesh,MMG5_pSol met, int* warn) {
         /* reallocation of point table */
         MMG3D_POINT_REALLOC(mesh,met,ip,mesh->gap,
                              *warn=1;
-                             break
+                             return ns
                              ,o,MG_NOTAG,src);
       }
 
diff --git a/src/mmg3d/split_3d.c b/src/mmg3d/split_3d.c
index 178c619..37e1ef1 100644
--- a/src/mmg3d/split_3d.c
+++ b/src/mmg3d/split_3d.c
@@ -4918,12 +4918,11 @@ MMG5_int MMG5_splitedg(MMG5_pMesh mesh, MMG5_pSol met,MMG5_int iel, int iar, dou
   MMG5_pxTetra pxt;
   MMG5_pPoint  p0,p1;
   double       o[3];
-  int          warn,lon,ier;
+  int          lon,ier;
   int64_t      list[MMG3D_LMAX+2];
   MMG5_int     src,i0,i1,ip;
   uint16_t     tag;
 
-  warn = 0;
   pt = &mesh->tetra[iel];
 
   int8_t isbdy;
@@ -4974,18 +4973,14 @@ MMG5_int MMG5_splitedg(MMG5_pMesh mesh, MMG5_pSol met,MMG5_int iel, int iar, dou
     assert ( mesh );
     /* reallocation of point table */
     MMG3D_POINT_REALLOC(mesh,met,ip,mesh->gap,
-                         warn=1;
-                         break
+                         fprintf(stderr,"\n  ## Warning: %s:",__func__);
+                         fprintf(stderr," unable to allocate a new point in last call"
+                                 " of MMG5_adpspl.\n");
+                         MMG5_INCREASE_MEM_MESSAGE();
+                         return -1
                          ,o,tag,src);
   }
 
-  if ( warn ) {
-    fprintf(stderr,"\n  ## Warning: %s:",__func__);
-    fprintf(stderr," unable to allocate a new point in last call"
-            " of MMG5_adpspl.\n");
-    MMG5_INCREASE_MEM_MESSAGE();
-  }
-
   ier = MMG5_intmet(mesh,met,iel,iar,ip,0.5);
   if ( !ier ) {
     MMG3D_delPt(mesh,ip);
-- 
2.43.0


From 55215898dc61139bd39efd8da56d920fbf5ea509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:10 +0000
Subject: [PATCH 29/42] fix: unscale the mesh before returning a low failure

---
 src/mmg2d/libmmg2d.c |  5 ++++-
 src/mmg3d/libmmg3d.c | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/mmg2d/libmmg2d.c b/src/mmg2d/libmmg2d.c
index 892b952..7c6fd63 100644
--- a/src/mmg2d/libmmg2d.c
+++ b/src/mmg2d/libmmg2d.c
@@ -492,6 +492,7 @@ int MMG2D_mmg2dmesh(MMG5_pMesh mesh,MMG5_pSol met) {
 
   /* Print quality histories */
   if ( !MMG2D_outqua(mesh,met) ) {
+    if ( !MMG5_unscaleMesh(mesh,met,NULL) )  _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
     MMG2D_RETURN_AND_PACK(mesh,met,sol,MMG5_LOWFAILURE);
   }
 
@@ -695,7 +696,7 @@ int MMG2D_mmg2dls(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol umet) {
         MMG5_SAFE_FREE (met);
       }
 
-      if ( !MMG5_unscaleMesh(mesh,met,NULL) ) {
+      if ( !MMG5_unscaleMesh(mesh,met,sol) ) {
         _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE); }
       MMG2D_RETURN_AND_PACK(mesh,met,sol,MMG5_LOWFAILURE);
     }
@@ -780,6 +781,7 @@ int MMG2D_mmg2dls(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol umet) {
       MMG5_DEL_MEM(mesh,met->m);
       MMG5_SAFE_FREE (met);
     }
+    if ( !MMG5_unscaleMesh(mesh,met,NULL) )  _LIBMMG5_RETURN(mesh,sol,met,MMG5_STRONGFAILURE);
     MMG2D_RETURN_AND_PACK(mesh,sol,met,MMG5_LOWFAILURE);
   }
 
@@ -998,6 +1000,7 @@ int MMG2D_mmg2dmov(MMG5_pMesh mesh,MMG5_pSol met,MMG5_pSol disp) {
 
   /* Print quality histories */
   if ( !MMG2D_outqua(mesh,met) ) {
+    if ( !MMG5_unscaleMesh(mesh,met,NULL) )  _LIBMMG5_RETURN(mesh,met,disp,MMG5_STRONGFAILURE);
     MMG2D_RETURN_AND_PACK(mesh,met,disp,MMG5_LOWFAILURE);
   }
 
diff --git a/src/mmg3d/libmmg3d.c b/src/mmg3d/libmmg3d.c
index aab1443..932a53d 100644
--- a/src/mmg3d/libmmg3d.c
+++ b/src/mmg3d/libmmg3d.c
@@ -1096,7 +1096,10 @@ int MMG3D_mmg3dlib(MMG5_pMesh mesh,MMG5_pSol met) {
     }
   }
 
-  if ( !MMG3D_tetraQual(mesh,met,0) )   _LIBMMG5_RETURN(mesh,met,sol,MMG5_LOWFAILURE);
+  if ( !MMG3D_tetraQual(mesh,met,0) ) {
+    if ( !MMG5_unscaleMesh(mesh,met,NULL) )   _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
+    _LIBMMG5_RETURN(mesh,met,sol,MMG5_LOWFAILURE);
+  }
 
   if ( mesh->info.imprim > 0  ||  mesh->info.imprim < -1 ) {
     if ( !MMG3D_inqua(mesh,met) ) {
@@ -1325,6 +1328,9 @@ int MMG3D_mmg3dls(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol umet) {
 
   if ( !MMG3D_tetraQual(mesh,met,0) ) {
     if ( mettofree ) { MMG5_DEL_MEM(mesh,met->m);MMG5_SAFE_FREE (met); }
+    if ( !MMG5_unscaleMesh(mesh,met,sol) ) {
+      _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
+    }
     _LIBMMG5_RETURN(mesh,met,sol,MMG5_LOWFAILURE);
   }
 
@@ -1585,10 +1591,14 @@ int MMG3D_mmg3dmov(MMG5_pMesh mesh,MMG5_pSol met, MMG5_pSol disp) {
 
   MMG3D_setfunc(mesh,met);
 
-  if ( !MMG3D_tetraQual(mesh,met,0) )   _LIBMMG5_RETURN(mesh,met,disp,MMG5_LOWFAILURE);
+  if ( !MMG3D_tetraQual(mesh,met,0) ) {
+    if ( !MMG5_unscaleMesh(mesh,met,disp) )    _LIBMMG5_RETURN(mesh,met,disp,MMG5_STRONGFAILURE);
+    _LIBMMG5_RETURN(mesh,met,disp,MMG5_LOWFAILURE);
+  }
 
   if ( mesh->info.imprim > 0  ||  mesh->info.imprim < -1 ) {
     if ( !MMG3D_inqua(mesh,met) ) {
+      if ( !MMG5_unscaleMesh(mesh,met,disp) )    _LIBMMG5_RETURN(mesh,met,disp,MMG5_STRONGFAILURE);
       _LIBMMG5_RETURN(mesh,met,disp,MMG5_LOWFAILURE);
     }
   }
-- 
2.43.0


From e67b1e2f9385b8f9214eb43045299394b2344fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:10 +0000
Subject: [PATCH 30/42] fix: a mesh that cannot be packed is a strong failure,
 met may be NULL

---
 src/mmg2d/libmmg2d.c | 10 +++++-----
 src/mmgs/libmmgs.c   |  3 +--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/mmg2d/libmmg2d.c b/src/mmg2d/libmmg2d.c
index 7c6fd63..517613c 100644
--- a/src/mmg2d/libmmg2d.c
+++ b/src/mmg2d/libmmg2d.c
@@ -40,7 +40,7 @@
       mesh->xt  = 0;                              \
       if ( met ) { met->npi  = met->np; }         \
       if ( sol ) { sol->npi  = sol->np; }         \
-      return MMG5_LOWFAILURE;                     \
+      return MMG5_STRONGFAILURE;                  \
     }                                             \
     _LIBMMG5_RETURN(mesh,met,sol,val);            \
   }while(0)
@@ -246,7 +246,7 @@ int MMG2D_mmg2dlib(MMG5_pMesh mesh,MMG5_pSol met) {
 
   /* Unscale mesh */
   if ( !MMG5_unscaleMesh(mesh,met,NULL) )  _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
-  if (!MMG2D_pack(mesh,met,sol) ) _LIBMMG5_RETURN(mesh,met,sol,MMG5_LOWFAILURE);
+  if (!MMG2D_pack(mesh,met,sol) ) _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
 
   chrono(OFF,&(ctim[1]));
 
@@ -507,7 +507,7 @@ int MMG2D_mmg2dmesh(MMG5_pMesh mesh,MMG5_pSol met) {
   chrono(ON,&(ctim[1]));
   if ( mesh->info.imprim > 0 )  fprintf(stdout,"\n  -- MESH PACKED UP\n");
 
-  if (!MMG2D_pack(mesh,met,sol) ) _LIBMMG5_RETURN(mesh,met,sol,MMG5_LOWFAILURE);
+  if (!MMG2D_pack(mesh,met,sol) ) _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
 
   chrono(OFF,&(ctim[1]));
 
@@ -800,7 +800,7 @@ int MMG2D_mmg2dls(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol umet) {
   /* Pack mesh */
   if (!MMG2D_pack(mesh,sol,met) ) {
     if ( mettofree ) { MMG5_SAFE_FREE (met); }
-    _LIBMMG5_RETURN(mesh,sol,met,MMG5_LOWFAILURE);
+    _LIBMMG5_RETURN(mesh,sol,met,MMG5_STRONGFAILURE);
   }
 
   chrono(OFF,&(ctim[1]));
@@ -1011,7 +1011,7 @@ int MMG2D_mmg2dmov(MMG5_pMesh mesh,MMG5_pSol met,MMG5_pSol disp) {
   if ( mesh->info.imprim > 0 )  fprintf(stdout,"\n  -- MESH PACKED UP\n");
 
   /* Pack mesh */
-  if (!MMG2D_pack(mesh,met,disp) ) _LIBMMG5_RETURN(mesh,met,disp,MMG5_LOWFAILURE);
+  if (!MMG2D_pack(mesh,met,disp) ) _LIBMMG5_RETURN(mesh,met,disp,MMG5_STRONGFAILURE);
 
   chrono(OFF,&(ctim[1]));
 
diff --git a/src/mmgs/libmmgs.c b/src/mmgs/libmmgs.c
index e86930d..7da0552 100644
--- a/src/mmgs/libmmgs.c
+++ b/src/mmgs/libmmgs.c
@@ -53,10 +53,9 @@
       mesh->nti = mesh->nt;                       \
       mesh->nai = mesh->na;                       \
       mesh->nei = mesh->ne;                       \
-      met->npi  = met->np;                        \
       if ( met ) { met->npi  = met->np; }         \
       if ( sol ) { sol->npi  = sol->np; }         \
-      return MMG5_LOWFAILURE;                     \
+      return MMG5_STRONGFAILURE;                  \
     }                                             \
     _LIBMMG5_RETURN(mesh,met,sol,val);            \
   }while(0)
-- 
2.43.0


From 8c4b0307b0b549b0e12f418ed298702cb00ed176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:10 +0000
Subject: [PATCH 31/42] fix: refuse a level-set run without solution before the
 mesh is altered

---
 src/mmg3d/libmmg3d.c | 11 +++++------
 src/mmgs/libmmgs.c   | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/mmg3d/libmmg3d.c b/src/mmg3d/libmmg3d.c
index 932a53d..70f0820 100644
--- a/src/mmg3d/libmmg3d.c
+++ b/src/mmg3d/libmmg3d.c
@@ -1292,6 +1292,11 @@ int MMG3D_mmg3dls(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol umet) {
     if ( mettofree ) { MMG5_DEL_MEM(mesh,met->m);MMG5_SAFE_FREE (met); }
     _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
   }
+  if ( !sol->np ) {
+    fprintf(stderr,"\n  ## ERROR: A VALID SOLUTION FILE IS NEEDED \n");
+    if ( mettofree ) { MMG5_DEL_MEM(mesh,met->m);MMG5_SAFE_FREE (met); }
+    _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
+  }
   if ( met && met->np &&  (met->np != mesh->np) ) {
     fprintf(stdout,"\n  ## WARNING: WRONG METRIC NUMBER. IGNORED\n");
     if ( mettofree ) {  MMG5_DEL_MEM(mesh,met->m);MMG5_SAFE_FREE (met); }
@@ -1344,12 +1349,6 @@ int MMG3D_mmg3dls(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol umet) {
     }
   }
 
-  if ( !sol->np ) {
-    fprintf(stderr,"\n  ## ERROR: A VALID SOLUTION FILE IS NEEDED \n");
-    if ( mettofree ) { MMG5_DEL_MEM(mesh,met->m);MMG5_SAFE_FREE (met); }
-    _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
-  }
-
   /* Specific meshing: compute optim option here because after isovalue
    * discretization mesh elements have too bad qualities */
   if ( mesh->info.optim ) {
diff --git a/src/mmgs/libmmgs.c b/src/mmgs/libmmgs.c
index 7da0552..8c70f86 100644
--- a/src/mmgs/libmmgs.c
+++ b/src/mmgs/libmmgs.c
@@ -391,6 +391,11 @@ int MMGS_mmgsls(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol umet)
     if ( mettofree ) {  MMG5_DEL_MEM(mesh,met->m);MMG5_SAFE_FREE (met); }
     _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
   }
+  if ( !sol->np ) {
+    fprintf(stderr,"\n  ## ERROR: A VALID SOLUTION FILE IS NEEDED \n");
+    if ( mettofree ) { MMG5_DEL_MEM(mesh,met->m);MMG5_SAFE_FREE (met); }
+    _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
+  }
   if ( met && met->np &&  (met->np != mesh->np) ) {
     fprintf(stdout,"\n  ## WARNING: WRONG METRIC NUMBER. IGNORED\n");
     if ( mettofree ) {  MMG5_DEL_MEM(mesh,met->m);MMG5_SAFE_FREE (met); }
@@ -432,12 +437,6 @@ int MMGS_mmgsls(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol umet)
     }
   }
 
-  if ( !sol->np ) {
-    fprintf(stderr,"\n  ## ERROR: A VALID SOLUTION FILE IS NEEDED \n");
-    if ( mettofree ) { MMG5_DEL_MEM(mesh,met->m);MMG5_SAFE_FREE (met); }
-    _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
-  }
-
   /* Specific meshing: compute optim option here because after isovalue
    * discretization mesh elements have too bad qualities */
   if ( mesh->info.optim ) {
-- 
2.43.0


From 4d3ab2f390ce30e42f91f80e402f566bd08aed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:12 +0000
Subject: [PATCH 32/42] fix: refuse a non-positive size each time, not only the
 first time

---
 src/common/scalem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/scalem.c b/src/common/scalem.c
index 33155d9..d2d6b02 100644
--- a/src/common/scalem.c
+++ b/src/common/scalem.c
@@ -232,8 +232,8 @@ int MMG5_scale_scalarMetric(MMG5_pMesh mesh, MMG5_pSol met, double dd) {
         mmgWarn0 = 1;
         fprintf(stderr,"\n  ## Error: %s: at least 1 wrong metric.\n",
                 __func__);
-        return 0;
       }
+      return 0;
     }
     /* normalization */
     met->m[k] *= dd;
-- 
2.43.0


From 1f35c67eacb79e0d3a4072069a091309042a5dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:12 +0000
Subject: [PATCH 33/42] fix: unscaling a 3D displacement no longer trips on a
 size check

---
 src/common/scalem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/scalem.c b/src/common/scalem.c
index d2d6b02..f851480 100644
--- a/src/common/scalem.c
+++ b/src/common/scalem.c
@@ -731,7 +731,7 @@ int MMG5_unscaleMesh(MMG5_pMesh mesh,MMG5_pSol met,MMG5_pSol sol) {
 
   /* de-normalize level-set or displacement */
   if ( sol && sol->np && sol->m ) {
-    assert ( sol->size != MMG5_Tensor );
+    assert ( sol->type != MMG5_Tensor );
     for (k=1; k<=mesh->np; k++) {
       ppt = &mesh->point[k];
       if ( !MG_VOK(ppt) )  continue;
-- 
2.43.0


From 7f0c2b9bca1fcd254f10520f79596de1fd8ee2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:13 +0000
Subject: [PATCH 34/42] fix: keep turning around the vertex when listing an
 open ball

---
 src/common/boulep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/boulep.c b/src/common/boulep.c
index 1c51d5d..8f15467 100644
--- a/src/common/boulep.c
+++ b/src/common/boulep.c
@@ -95,7 +95,7 @@ int MMG5_boulep(MMG5_pMesh mesh,MMG5_int start,int ip,MMG5_int *adja, MMG5_int *
     adj = &adja[3*(k-1)+1];
     k  = adj[i2] / 3;
     i1 = adj[i2] % 3;
-    i2 = MMG5_iprv2[i1];
+    i2 = MMG5_inxt2[i1];
     pt = &mesh->tria[k];
 
     tlist[ilist-1] = k;
-- 
2.43.0


From b31ec63ebf00254f589cd2aa0c6c864113978757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:45 +0000
Subject: [PATCH 35/42] fix: list an edge between the first triangle and a
 quadrilateral only once

---
 src/mmg2d/hash_2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmg2d/hash_2d.c b/src/mmg2d/hash_2d.c
index 8d688fa..c396bb2 100644
--- a/src/mmg2d/hash_2d.c
+++ b/src/mmg2d/hash_2d.c
@@ -618,7 +618,7 @@ int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
     for (i=0; i<4; i++) {
       iel = adja[i] / 4;
 
-      if ( iel < 0) {
+      if ( adja[i] < 0 ) {
         /* Edge at the interface between a quad and a tria: treated from the tria */
         continue;
       }
@@ -705,7 +705,7 @@ int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
 
           iel = adja[i] / 4;
 
-          if ( iel < 0) {
+          if ( adja[i] < 0 ) {
             /* Edge at the interface between a quad and a tria: treated from the tria */
             continue;
           }
-- 
2.43.0


From 6d762525169ec4745bf238be6c3df97ee0f7a8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:45 +0000
Subject: [PATCH 36/42] fix: list an inner edge of a planar mesh only once

---
 src/mmg2d/hash_2d.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/mmg2d/hash_2d.c b/src/mmg2d/hash_2d.c
index c396bb2..1bd98db 100644
--- a/src/mmg2d/hash_2d.c
+++ b/src/mmg2d/hash_2d.c
@@ -598,7 +598,11 @@ int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
       if ( (!iel) || (pt->ref > pt1->ref) ) {
         ++mesh->na;
       }
-      else if ( (pt->ref==pt1->ref) && MG_SIN(pt->tag[i]) ) {
+      else if ( (pt->ref < pt1->ref) || k > iel ) {
+        /* Edge listed from the other side */
+        continue;
+      }
+      else if ( MG_SIN(pt->tag[i]) ) {
         ++mesh->na;
       }
       else if ( mesh->info.opnbdy ) {
@@ -627,7 +631,11 @@ int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
       if ( (!iel) || (pq->ref > pq1->ref) ) {
         ++mesh->na;
       }
-      else if ( (pq->ref==pq1->ref) && MG_SIN(pq->tag[i]) ) {
+      else if ( (pq->ref < pq1->ref) || k > iel ) {
+        /* Edge listed from the other side */
+        continue;
+      }
+      else if ( MG_SIN(pq->tag[i]) ) {
         ++mesh->na;
       }
       else if ( mesh->info.opnbdy ) {
@@ -676,8 +684,9 @@ int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
           iel = adja[i] / 3;
           pt1 = &mesh->tria[iel];
           if ( !iel || (pt->ref > pt1->ref) ||
-               ((pt->ref==pt1->ref) && MG_SIN(pt->tag[i])) ||
-               (mesh->info.opnbdy && ((pt->tag[i] & MG_REF) || (pt->tag[i] & MG_BDY)))) {
+               ((pt->ref==pt1->ref) && k < iel &&
+                (MG_SIN(pt->tag[i]) ||
+                 (mesh->info.opnbdy && ((pt->tag[i] & MG_REF) || (pt->tag[i] & MG_BDY))))) ) {
             ++ned;
             ped = &mesh->edge[ned];
             ped->a = pt->v[i1];
@@ -712,8 +721,9 @@ int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
 
           pq1 = &mesh->quadra[iel];
           if ( !iel || (pq->ref > pq1->ref) ||
-               ((pq->ref==pq1->ref) && MG_SIN(pq->tag[i])) ||
-               (mesh->info.opnbdy && ((pq->tag[i] & MG_REF) || (pq->tag[i] & MG_BDY)))) {
+               ((pq->ref==pq1->ref) && k < iel &&
+                (MG_SIN(pq->tag[i]) ||
+                 (mesh->info.opnbdy && ((pq->tag[i] & MG_REF) || (pq->tag[i] & MG_BDY))))) ) {
             ++ned;
             ped = &mesh->edge[ned];
             ped->a = pq->v[i1];
-- 
2.43.0


From ee36177ad365d125af9f02a7bd446075df168274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:12 +0000
Subject: [PATCH 37/42] fix: give the second field of a planar mesh its new
 size when packing

---
 src/mmg2d/hash_2d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmg2d/hash_2d.c b/src/mmg2d/hash_2d.c
index 1bd98db..b0d7df8 100644
--- a/src/mmg2d/hash_2d.c
+++ b/src/mmg2d/hash_2d.c
@@ -861,6 +861,7 @@ int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
   }
   mesh->np = np;
   if ( sol && sol->m ) sol->np  = np;
+  if ( met && met->m ) met->np  = np;
 
   /** Reset ppt->tmp field */
   for(k=1 ; k<=mesh->np ; k++)
-- 
2.43.0


From 0676f5a3061748eb67e6df68c173e1b90759d148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:46 +0000
Subject: [PATCH 38/42] fix: no free slots are announced after packing a
 surface mesh whose tables are full

---
 src/mmgs/libmmgs.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/mmgs/libmmgs.c b/src/mmgs/libmmgs.c
index 8c70f86..e4c003b 100644
--- a/src/mmgs/libmmgs.c
+++ b/src/mmgs/libmmgs.c
@@ -270,13 +270,23 @@ int MMGS_packMesh(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
   for(k=1 ; k<=mesh->np ; k++)
     mesh->point[k].tmp = 0;
 
-  mesh->npnil = mesh->np + 1;
-  for(k=mesh->npnil; k<mesh->npmax-1; k++)
-    mesh->point[k].tmp  = k+1;
-
-  mesh->nenil = mesh->nt + 1;
-  for(k=mesh->nenil; k<mesh->ntmax-1; k++)
-    mesh->tria[k].v[2] = k+1;
+  if ( mesh->np >= mesh->npmax-1 )
+    mesh->npnil = 0;
+  else
+    mesh->npnil = mesh->np + 1;
+
+  if ( mesh->npnil )
+    for(k=mesh->npnil; k<mesh->npmax-1; k++)
+      mesh->point[k].tmp  = k+1;
+
+  if ( mesh->nt >= mesh->ntmax-1 )
+    mesh->nenil = 0;
+  else
+    mesh->nenil = mesh->nt + 1;
+
+  if ( mesh->nenil )
+    for(k=mesh->nenil; k<mesh->ntmax-1; k++)
+      mesh->tria[k].v[2] = k+1;
 
   /* to could save the mesh, the adjacency have to be correct */
   if ( mesh->info.ddebug && (!MMG5_chkmsh(mesh,1,1) ) ) {
-- 
2.43.0


From 11a3e31fa5d57e98046469c13bd004943425ad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:31 +0000
Subject: [PATCH 39/42] fix: release the level-set base references with the
 mesh

---
 src/common/API_functions.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/API_functions.c b/src/common/API_functions.c
index 706c047..a8c6a43 100644
--- a/src/common/API_functions.c
+++ b/src/common/API_functions.c
@@ -545,6 +545,9 @@ void MMG5_Free_structures(MMG5_pMesh mesh,MMG5_pSol sol){
       MMG5_DEL_MEM(mesh,mesh->info.invmat.lookup);
   }
 
+  if ( mesh->info.br )
+    MMG5_DEL_MEM(mesh,mesh->info.br);
+
   if ( mesh->info.imprim>5 || mesh->info.ddebug ) {
     printf("  MEMORY USED AT END (Bytes) %zu\n",mesh->memCur);
   }
-- 
2.43.0


From 90c44039e4478164c80965975475be4f53d33d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:31 +0000
Subject: [PATCH 40/42] fix: MMGS_Free_all releases the level-set structure it
 is given

---
 src/mmgs/variadic_s.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mmgs/variadic_s.c b/src/mmgs/variadic_s.c
index 210b577..4b827cf 100644
--- a/src/mmgs/variadic_s.c
+++ b/src/mmgs/variadic_s.c
@@ -286,6 +286,9 @@ int MMGS_Free_all_var(va_list argptr)
   if ( sol )
     MMG5_SAFE_FREE(*sol);
 
+  if ( ls )
+    MMG5_SAFE_FREE(*ls);
+
   if ( sols ) {
     MMG5_DEL_MEM(*mesh,*sols);
   }
-- 
2.43.0


From 493773c1936f28c971b061f60f6a1872c6ae0c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:31 +0000
Subject: [PATCH 41/42] fix: no solution is announced when the array of
 solutions could not be allocated

---
 src/mmg2d/API_functions_2d.c | 3 ++-
 src/mmg3d/API_functions_3d.c | 3 ++-
 src/mmgs/API_functions_s.c   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index 151d13a..c624a09 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -577,11 +577,12 @@ int MMG2D_Set_solsAtVerticesSize(MMG5_pMesh mesh, MMG5_pSol *sol,int nsols,
   }
 
   /** Sol tab allocation */
-  mesh->nsols = nsols;
+  mesh->nsols = 0;
 
   MMG5_ADD_MEM(mesh,nsols*sizeof(MMG5_Sol),"solutions array",
                 return 0);
   MMG5_SAFE_CALLOC(*sol,nsols,MMG5_Sol,return 0);
+  mesh->nsols = nsols;
 
   for ( j=0; j<nsols; ++j ) {
     psl = *sol + j;
diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index b77b685..265189c 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -173,11 +173,12 @@ int MMG3D_Set_solsAtVerticesSize(MMG5_pMesh mesh, MMG5_pSol *sol,int nsols,
   }
 
   /** Sol tab allocation */
-  mesh->nsols = nsols;
+  mesh->nsols = 0;
 
   MMG5_ADD_MEM(mesh,nsols*sizeof(MMG5_Sol),"solutions array",
                 return 0);
   MMG5_SAFE_CALLOC(*sol,nsols,MMG5_Sol,return 0);
+  mesh->nsols = nsols;
 
   for ( j=0; j<nsols; ++j ) {
     psl = *sol + j;
diff --git a/src/mmgs/API_functions_s.c b/src/mmgs/API_functions_s.c
index e821a8b..94c3707 100644
--- a/src/mmgs/API_functions_s.c
+++ b/src/mmgs/API_functions_s.c
@@ -152,11 +152,12 @@ int MMGS_Set_solsAtVerticesSize(MMG5_pMesh mesh, MMG5_pSol *sol,int nsols,
   }
 
   /** Sol tab allocation */
-  mesh->nsols = nsols;
+  mesh->nsols = 0;
 
   MMG5_ADD_MEM(mesh,nsols*sizeof(MMG5_Sol),"solutions array",
                 return 0);
   MMG5_SAFE_CALLOC(*sol,nsols,MMG5_Sol,return 0);
+  mesh->nsols = nsols;
 
   for ( j=0; j<nsols; ++j ) {
     psl = *sol + j;
-- 
2.43.0


From 3987441c15bdb6ce55e1ad27532d3dc485f62c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:18 +0000
Subject: [PATCH 42/42] fix: release the previous material lookup table before
 building a new one

---
 src/common/mmg2.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/mmg2.c b/src/common/mmg2.c
index fb91f4c..ed43032 100644
--- a/src/common/mmg2.c
+++ b/src/common/mmg2.c
@@ -391,6 +391,7 @@ int MMG5_MultiMat_init(MMG5_pMesh mesh) {
   assert( pim->size > 0 );
 
   /* Allocate lookup table */
+  if ( pim->lookup ) MMG5_DEL_MEM(mesh,pim->lookup);
   MMG5_ADD_MEM(mesh,pim->size*sizeof(int),"materials lookup table",return 0);
   MMG5_SAFE_CALLOC(pim->lookup,pim->size,int,return 0);
 
-- 
2.43.0

