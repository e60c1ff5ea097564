From 8adfcf085da0b1f0e26017ccf8fc85ceac7b2654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:19 +0000
Subject: [PATCH 001/106] fix: Gaussian kernel womega is -(ndim*W + s*dW/ds),
 i.e. 2*s*s*exp(-s*s) not 2*s*exp(-s*s)

---
 src/Headers/SmoothingKernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/SmoothingKernel.h b/src/Headers/SmoothingKernel.h
index f05c1f8..84fc29d 100644
--- a/src/Headers/SmoothingKernel.h
+++ b/src/Headers/SmoothingKernel.h
@@ -483,7 +483,7 @@ inline FLOAT GaussianKernel<ndim>::womega(const FLOAT s)
 {
   if (s < kernrange)
     return (kernnorm)*
-      ((FLOAT) 2.0*s*exp(-s*s) - (ndim)*exp(-s*s));
+      ((FLOAT) 2.0*s*s*exp(-s*s) - (ndim)*exp(-s*s));
   else
     return (FLOAT) 0.0;
 }
-- 
2.43.0


From 84077a041732f3e1eff74c0f0068b5e6461c65d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:18 +0000
Subject: [PATCH 002/106] fix: quintic kernel wgrav, wpot and wzeta are
 integrals of the kernel with its own 3D norm

wgrav and wpot used 12/359 instead of 4*pi*kernnorm = 1/30, so both jumped by 0.28% at s=3;
wzeta lacked the factor -1/30 altogether.
---
 src/Headers/SmoothingKernel.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/Headers/SmoothingKernel.h b/src/Headers/SmoothingKernel.h
index 84fc29d..f0a130d 100644
--- a/src/Headers/SmoothingKernel.h
+++ b/src/Headers/SmoothingKernel.h
@@ -349,17 +349,17 @@ template <int ndim>
 inline FLOAT QuinticKernel<ndim>::wzeta(const FLOAT s)
 {
   if (s < (FLOAT) 1.0)
-    return (FLOAT) 33.0*s*s - (FLOAT) 15.0*pow(s,4) + (FLOAT) 5.0*pow(s,6) -
-      (FLOAT) 1.42857142857*pow(s,7) - (FLOAT) 34.14285714;
+    return -(FLOAT) (1.0/30.0)*((FLOAT) 33.0*s*s - (FLOAT) 15.0*pow(s,4) + (FLOAT) 5.0*pow(s,6) -
+      (FLOAT) (10.0/7.0)*pow(s,7) - (FLOAT) (478.0/14.0));
   else if (s < 2.0)
-    return (FLOAT) 25.5*s*s + (FLOAT) 25.0*pow(s,3) - (FLOAT) 52.5*pow(s,4)
+    return -(FLOAT) (1.0/30.0)*((FLOAT) 25.5*s*s + (FLOAT) 25.0*pow(s,3) - (FLOAT) 52.5*pow(s,4)
       + (FLOAT) 30.0*pow(s,5) - (FLOAT) 7.5*pow(s,6)
-      + (FLOAT) 0.7142857143*pow(s,7) - 33.785714286;
+      + (FLOAT) (5.0/7.0)*pow(s,7) - (FLOAT) (473.0/14.0));
   else if (s < (FLOAT) 3.0)
-    return (FLOAT) 121.5*s*s - (FLOAT) 135.0*pow(s,3) +
+    return -(FLOAT) (1.0/30.0)*((FLOAT) 121.5*s*s - (FLOAT) 135.0*pow(s,3) +
       (FLOAT) 67.5*pow(s,4) - (FLOAT) 18.0*pow(s,5) +
-      (FLOAT) 2.5*pow(s,6) - (FLOAT) 0.142857143*pow(s,7) -
-      (FLOAT) 52.07142857;
+      (FLOAT) 2.5*pow(s,6) - (FLOAT) (1.0/7.0)*pow(s,7) -
+      (FLOAT) (729.0/14.0));
   else
     return 0.0;
 }
@@ -374,12 +374,12 @@ template <int ndim>
 inline FLOAT QuinticKernel<ndim>::wgrav(const FLOAT s)
 {
   if (s < 1.0)
-    return (12.0/359.0)*(22.0*s - 12.0*pow(s,3) + (30.0/7.0)*pow(s,5) - (5.0/4.0)*pow(s,6));
+    return (1.0/30.0)*(22.0*s - 12.0*pow(s,3) + (30.0/7.0)*pow(s,5) - (5.0/4.0)*pow(s,6));
   else if (s < 2.0)
-    return (12.0/359.0)*(17.0*s + (75.0/4.0)*s*s - 42.0*pow(s,3) +
+    return (1.0/30.0)*(17.0*s + (75.0/4.0)*s*s - 42.0*pow(s,3) +
       25.0*pow(s,4) - (45.0/7.0)*pow(s,5) + (5.0/8.0)*pow(s,6) + (5.0/56.0)/(s*s));
   else if (s < 3.0)
-    return (12.0/359.0)*(81.0*s - (405.0/4.0)*pow(s,2) + 54.0*pow(s,3) -
+    return (1.0/30.0)*(81.0*s - (405.0/4.0)*pow(s,2) + 54.0*pow(s,3) -
       15.0*pow(s,4) + (15.0/7.0)*pow(s,5) - (1.0/8.0)*pow(s,6) - (507.0/56.0)/(s*s));
   else
     return 1.0/(s*s);
@@ -395,13 +395,13 @@ template <int ndim>
 inline FLOAT QuinticKernel<ndim>::wpot(const FLOAT s)
 {
   if (s < 1.0)
-    return (12.0/359.0)*(-11.0*s*s + 3.0*pow(s,4) - (5.0/7.0)*pow(s,6) +
+    return (1.0/30.0)*(-11.0*s*s + 3.0*pow(s,4) - (5.0/7.0)*pow(s,6) +
       (5.0/28.0)*pow(s,7) + (478.0/14.0));
   else if (s < 2.0)
-    return (12.0/359.0)*(-(17.0/2.0)*s*s - (25.0/4.0)*pow(s,3) + (21.0/2.0)*pow(s,4) -
+    return (1.0/30.0)*(-(17.0/2.0)*s*s - (25.0/4.0)*pow(s,3) + (21.0/2.0)*pow(s,4) -
       5.0*pow(s,5) + (15.0/14.0)*pow(s,6) - (5.0/56.0)*pow(s,7) + (473.0/14.0) + (5.0/56.0)/s);
   else if (s < 3.0)
-    return (12.0/359.0)*(-(81.0/2.0)*s*s + (135.0/4.0)*pow(s,3) - (27.0/2.0)*pow(s,4) +
+    return (1.0/30.0)*(-(81.0/2.0)*s*s + (135.0/4.0)*pow(s,3) - (27.0/2.0)*pow(s,4) +
       3.0*pow(s,5) - (5.0/14.0)*pow(s,6) + (1.0/56.0)*pow(s,7) + (729.0/14.0) - (507.0/56.0)/s);
   else
     return 1.0/s;
-- 
2.43.0


From ac01025e8d412beefda32fadad313e3c07e7c95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:11 +0000
Subject: [PATCH 003/106] fix: GradhSph::ComputeH potential-minimum test used
 the separation of the previous neighbour

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 17e7049..9beffa3 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -272,8 +272,8 @@ int GradhSph<ndim, kernelclass>::ComputeH
     parti.flags.set(potmin);
     for (j=0; j<Nneib; j++) {
       const DensityParticle &ngb = ngbs[j];
-      FLOAT drsqd = DotProduct(dr,dr,ndim);
       for (k=0; k<ndim; k++) dr[k] = ngb.r[k] - parti.r[k];
+      FLOAT drsqd = DotProduct(dr,dr,ndim);
       if (ngb.gpot > (FLOAT) 1.000000001*parti.gpot &&
           drsqd*invhsqd < kern.kernrangesqd) parti.flags.unset(potmin);
     }
-- 
2.43.0


From ba5eae0a3bd068a3444a322a1f908a2c3845693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:11 +0000
Subject: [PATCH 004/106] fix: MM97 viscosity source term with self-gravity
 must grow in compression (-div_v), not expansion

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 9beffa3..2008656 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -578,7 +578,7 @@ void GradhSph<ndim, kernelclass>::ComputeSphHydroGravForces
   parti.dudt    -= eos->Pressure(parti)*parti.div_v*invrho_i*parti.invomega;
   if (tdavisc == mm97) {
     parti.dalphadt = (FLOAT) 0.1*parti.sound*(alpha_visc_min - parti.alpha)*invh_i +
-        max(parti.div_v,(FLOAT) 0.0)*(alpha_visc - parti.alpha);
+        max(-parti.div_v, (FLOAT) 0.0)*(alpha_visc - parti.alpha);
   }
 
   return;
-- 
2.43.0


From 4f4a5c2d93d46c32275d8bc6cf58178c78c959b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:11 +0000
Subject: [PATCH 005/106] fix: ComputeSphGravForces took the neighbour level
 from an unrelated particle

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 2008656..3efcc85 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -638,7 +638,7 @@ void GradhSph<ndim, kernelclass>::ComputeSphGravForces
     for (k=0; k<ndim; k++) parti.atree[k] += neibpart[j].m*dr[k]*paux;
     parti.gpot += neibpart[j].m*gaux;
 
-    parti.levelneib = max(parti.levelneib,sphdata[j].level);
+    parti.levelneib = max(parti.levelneib,neibpart[j].level);
   }
 
   //===============================================================================================
-- 
2.43.0


From 10ead101f821b91fd7852be29f4211512d8cea74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:11 +0000
Subject: [PATCH 006/106] fix: Price (2008) conductivity signal velocity is
 sqrt(|dP|/rho), the coded term was dimensionally wrong

---
 src/GradhSph/GradhSph.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 3efcc85..c014c59 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -429,9 +429,8 @@ void GradhSph<ndim, kernelclass>::ComputeSphHydroForces
           (invrho_i*wkerni + invrho_j*wkernj);
       }
       else if (acond == price2008) {
-        parti.dudt += (FLOAT) 0.5*neibpart[j].m*(parti.u - neibpart[j].u)*
-          winvrho*(invrho_i + invrho_j)*
-          sqrt(fabs(parti.pressure - neibpart[j].pressure));
+        parti.dudt += neibpart[j].m*(parti.u - neibpart[j].u)*winvrho*
+          sqrt((FLOAT) 0.5*(invrho_i + invrho_j)*fabs(parti.pressure - neibpart[j].pressure));
       }
 
     }
@@ -543,9 +542,8 @@ void GradhSph<ndim, kernelclass>::ComputeSphHydroGravForces
           (invrho_i*wkerni + invrho_j*wkernj);
       }
       else if (acond == price2008) {
-        parti.dudt += (FLOAT) 0.5*neibpart[j].m*(parti.u - neibpart[j].u)*
-          winvrho*(invrho_i + invrho_j)*
-          sqrt(fabs(parti.pressure - neibpart[j].pressure));
+        parti.dudt += neibpart[j].m*(parti.u - neibpart[j].u)*winvrho*
+          sqrt((FLOAT) 0.5*(invrho_i + invrho_j)*fabs(parti.pressure - neibpart[j].pressure));
       }
 
     }
-- 
2.43.0


From 2cd8eec05c14b1015f0d15c16a618cc064f6b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:12 +0000
Subject: [PATCH 007/106] fix: NeighbourManager read the type of a not yet
 stored neighbour (past the end of the list)

---
 src/Headers/NeighbourManager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/NeighbourManager.h b/src/Headers/NeighbourManager.h
index 2223acf..efd37b0 100644
--- a/src/Headers/NeighbourManager.h
+++ b/src/Headers/NeighbourManager.h
@@ -460,7 +460,7 @@ private:
         neiblist.push_back(Nneib);
         neib_idx.push_back(i);
         Nneib++;
-      } else if (keep_direct && gravmask[neibdata[Nneib].ptype]) {
+      } else if (keep_direct && gravmask[partdata[i].ptype]) {
         // Hydro candidates that fail the test get demoted to direct neighbours
         neibdata.push_back(partdata[i]);
         directlist.push_back(Nneib);
-- 
2.43.0


From 78b6ccd379ee2eb18ef393bfb1733e638855a3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 008/106] fix: periodic cell overlap test used an uninitialised
 shift along non-periodic axes

---
 src/Headers/GhostNeighbours.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Headers/GhostNeighbours.hpp b/src/Headers/GhostNeighbours.hpp
index 297ea0c..80ab72f 100644
--- a/src/Headers/GhostNeighbours.hpp
+++ b/src/Headers/GhostNeighbours.hpp
@@ -174,6 +174,7 @@ public:
     type_flag PeriodicDistanceCorrection(const FLOAT dr[ndim], FLOAT dr_corr[ndim]) const
     {
       type_flag bound ;
+      for (int k=0; k<ndim; k++) dr_corr[k] = 0 ;
       if (_any_periodic)
         {
           for (int k=0; k<ndim; k++) {
@@ -186,8 +187,6 @@ public:
                 dr_corr[k] = _domain.size[k];
                 bound.set(periodic_bound_flags[k][0]) ;
               }
-              else
-                dr_corr[k] = 0 ;
             }
           }
         }
-- 
2.43.0


From 1fcc3d68fefb367b5b851bd4a66d36cb3c2429a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 009/106] fix: mirror ghost construction kept a reference into
 a vector it then grew

---
 src/Headers/GhostNeighbours.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/GhostNeighbours.hpp b/src/Headers/GhostNeighbours.hpp
index 80ab72f..ef50fc2 100644
--- a/src/Headers/GhostNeighbours.hpp
+++ b/src/Headers/GhostNeighbours.hpp
@@ -410,7 +410,7 @@ private:
 	int _MakeReflectedScatterGatherGhosts(vector<ParticleType>& ngbs) const {
 	  int nc = 1 ;
 	  const int old_size = ngbs.size()-1;
-	  const ParticleType& real_particle = ngbs.back();
+	  const ParticleType real_particle = ngbs.back();
 	  FLOAT h2 = real_particle.hrangesqd ;
 
 	  // Loop over the possible directions for reflections
-- 
2.43.0


From 9a765e00545b55df93dbe9ef3e6062034eed16f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 010/106] fix: OctTree never set the root cell box from the
 particle bounding box it computed

The root cell kept the default (+-big_number) box on the first build, so the
tree was subdivided down to the maximum level whenever Npart > Nleafmax.
---
 src/Tree/OctTree.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 9aadf5e..0bd1ad6 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -111,8 +111,8 @@ void OctTree<ndim,ParticleType,TreeCell>::AllocateTreeMemory(int Nparticles, int
     Ncells    = max((int) ((FLOAT) 2.0*(FLOAT) Ncells), 4*Nparticles);
     gtot        = Ntotmax;
 
-    firstCell = new int[lmax];
-    lastCell  = new int[lmax];
+    firstCell = new int[lmax + 1];
+    lastCell  = new int[lmax + 1];
     ids       = new int[Nparticles];
     inext     = new int[Nparticles];
     celldata  = new struct TreeCell<ndim>[Ncells];
@@ -246,7 +246,7 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
     celldata[c].id     = c;
   }
 
-  // Create bounding box of SPH particles
+  // Create bounding box of all particles
   for (k=0; k<ndim; k++) bbmin[k] = big_number;
   for (k=0; k<ndim; k++) bbmax[k] = -big_number;
 
@@ -255,8 +255,8 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
     ilast  = _ifirst + Npart - 1;
     for (i=ifirst; i<=ilast; i++) {
       for (k=0; k<ndim; k++) {
-        bbmax[k] = max(bbmax[k], partdata[i].r[k] + kernrange*partdata[i].h);
-        bbmin[k] = min(bbmin[k], partdata[i].r[k] - kernrange*partdata[i].h);
+        bbmax[k] = max(bbmax[k], partdata[i].r[k]);
+        bbmin[k] = min(bbmin[k], partdata[i].r[k]);
       }
     }
     for (i=ifirst; i<=ilast; i++) ids[i] = i;
@@ -282,6 +282,8 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
   for (k=0; k<ndim; k++) celldata[0].cexit[1][k] = -1;
   for (k=0; k<ndim; k++) celldata[0].v[k]= (FLOAT) 0.0;
   for (k=0; k<ndim; k++) {
+    celldata[0].bb.min[k]  = bbmin[k];
+    celldata[0].bb.max[k]  = bbmax[k];
     celldata[0].rcentre[k] = (FLOAT) 0.5*(celldata[0].bb.min[k] + celldata[0].bb.max[k]);
     cellSize = max(cellSize, celldata[0].bb.max[k] - celldata[0].rcentre[k]);
   }
-- 
2.43.0


From 4c60c3eeb3e46786406a94742189747d27c9ac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:40 +0000
Subject: [PATCH 011/106] fix: OctTree::BuildTree overran its cell array for
 deep trees; grow it instead

---
 src/Tree/OctTree.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 0bd1ad6..79adf6a 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -306,6 +306,23 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
     while (!allDone) {
       cellSize *= (FLOAT) 0.5;
 
+      // Grow the cell array if the next level of cells would not fit in it
+      if (Ncell + Noctchild*Nlist > Ncellmax) {
+        const int Ncellmaxold = Ncellmax;
+        ReallocateMemory(Ntotmax, max(2*Ncellmax, Ncell + Noctchild*Nlist));
+        for (c=0; c<Ncellmaxold; c++) {
+          if (celldata[c].cnext == Ncellmaxold) celldata[c].cnext = Ncellmax;
+        }
+        for (c=Ncellmaxold; c<Ncellmax; c++) {
+          celldata[c].N      = 0;
+          celldata[c].ifirst = -1;
+          celldata[c].ilast  = -1;
+          celldata[c].copen  = -1;
+          celldata[c].cnext  = Ncellmax;
+          celldata[c].id     = c;
+        }
+      }
+
 
       // Loop over all unfinished cells to find new child cell occupancy
       //-------------------------------------------------------------------------------------------
-- 
2.43.0


From 3931a3b39d957eb777afcd1f08762ff6b36676c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:40 +0000
Subject: [PATCH 012/106] fix: OctTree left size and centre of cells without
 gravitating mass unset, and never reset the cell velocity box

---
 src/Tree/OctTree.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 79adf6a..2a65545 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -525,6 +525,8 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
       for (k=0; k<ndim; k++) cell.bb.max[k]   = -big_number;
       for (k=0; k<ndim; k++) cell.hbox.min[k] = big_number;
       for (k=0; k<ndim; k++) cell.hbox.max[k] = -big_number;
+      for (k=0; k<ndim; k++) cell.vbox.min[k] = big_number;
+      for (k=0; k<ndim; k++) cell.vbox.max[k] = -big_number;
       for (k=0; k<5; k++) cell.q[k] = (FLOAT) 0.0;
 
 
@@ -588,6 +590,8 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
         if (cell.m > 0) {
           for (k=0; k<ndim; k++) cell.r[k] /= cell.m;
           for (k=0; k<ndim; k++) cell.v[k] /= cell.m;
+        }
+        if (cell.N > 0) {
           for (k=0; k<ndim; k++) cell.rcell[k] = (FLOAT) 0.5*(cell.bb.min[k] + cell.bb.max[k]);
           for (k=0; k<ndim; k++) dr[k] = (FLOAT) 0.5*(cell.bb.max[k] - cell.bb.min[k]);
           cell.cdistsqd = max(DotProduct(dr,dr,ndim),cell.hmax*cell.hmax)/thetamaxsqd;
@@ -662,10 +666,12 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
           for (k=0; k<ndim; k++) cell.r[k] /= cell.m;
           for (k=0; k<ndim; k++) cell.v[k] /= cell.m;
         }
-        for (k=0; k<ndim; k++) cell.rcell[k] = (FLOAT) 0.5*(cell.bb.min[k] + cell.bb.max[k]);
-        for (k=0; k<ndim; k++) dr[k] = (FLOAT) 0.5*(cell.bb.max[k] - cell.bb.min[k]);
-        cell.cdistsqd = max(DotProduct(dr, dr, ndim),cell.hmax*cell.hmax)/thetamaxsqd;
-        cell.rmax = sqrt(DotProduct(dr, dr, ndim));
+        if (cell.N > 0) {
+          for (k=0; k<ndim; k++) cell.rcell[k] = (FLOAT) 0.5*(cell.bb.min[k] + cell.bb.max[k]);
+          for (k=0; k<ndim; k++) dr[k] = (FLOAT) 0.5*(cell.bb.max[k] - cell.bb.min[k]);
+          cell.cdistsqd = max(DotProduct(dr, dr, ndim),cell.hmax*cell.hmax)/thetamaxsqd;
+          cell.rmax = sqrt(DotProduct(dr, dr, ndim));
+        }
 #ifdef MPI_PARALLEL
         //cell.worktot = child1.worktot + child2.worktot;
 #endif
-- 
2.43.0


From 4b9762c33488d3e0101d664efebd5e236901b86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:42 +0000
Subject: [PATCH 013/106] fix: OctTree::StockTree read uninitialised level
 bounds for an empty tree

---
 src/Tree/OctTree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 2a65545..00ef6e2 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -272,6 +272,8 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
   // Set properties for root cell before constructing tree
   Ncell  = 1;
   ltot   = 0;
+  firstCell[0] = 0;
+  lastCell[0]  = 0;
   celldata[0].N      = Ntot;
   celldata[0].ifirst = _ifirst;
   celldata[0].ilast  = _ilast;
@@ -297,8 +299,6 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
     celllist     = new int[Npartmax];
     Nlist        = 1;
     celllist[0]  = 0;
-    firstCell[0] = 0;
-    lastCell[0]  = 0;
 
 
     // Recursively divide tree to lower levels until all leaf cells contain maximum no. of ptcls.
-- 
2.43.0


From aea7dec8050d90e7f4b9033ed783df8dccdd0b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:14 +0000
Subject: [PATCH 014/106] fix: ComputeH returning -1 (h beyond the neighbour
 list) was taken as success

The cell was then left with a smoothing length and density that were not
converged, or not computed at all, instead of retrying with a larger hmax.
---
 src/GradhSph/GradhSphTree.cpp     | 2 +-
 src/MeshlessFV/MeshlessFVTree.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GradhSph/GradhSphTree.cpp b/src/GradhSph/GradhSphTree.cpp
index 671f1bc..991dfd5 100644
--- a/src/GradhSph/GradhSphTree.cpp
+++ b/src/GradhSph/GradhSphTree.cpp
@@ -229,7 +229,7 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphProperties
 
           // If h-computation is invalid, then break from loop and recompute
           // larger neighbour lists
-          if (okflag == 0) {
+          if (okflag != 1) {
             celldone = 0;
             break;
           }
diff --git a/src/MeshlessFV/MeshlessFVTree.cpp b/src/MeshlessFV/MeshlessFVTree.cpp
index e7d1a50..b5f1c48 100644
--- a/src/MeshlessFV/MeshlessFVTree.cpp
+++ b/src/MeshlessFV/MeshlessFVTree.cpp
@@ -258,7 +258,7 @@ void MeshlessFVTree<ndim,ParticleType>::UpdateAllProperties
           okflag = mfv->ComputeH(i, Ngather, hmax, m2, mu2, drsqd, gpot, activepart[j], nbody);
 
           // If h-computation is invalid, then break from loop and recompute larger neighbour lists
-          if (okflag == 0) {
+          if (okflag != 1) {
             celldone = 0;
             break;
           }
-- 
2.43.0


From 4d97e15ecaadcc605cbe158d148028c5c6cc93d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:14 +0000
Subject: [PATCH 015/106] fix: MfvCommon::ComputeH tested convergence with the
 initial h and an absolute tolerance

---
 src/MeshlessFV/MfvCommon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshlessFV/MfvCommon.cpp b/src/MeshlessFV/MfvCommon.cpp
index 5747412..67de69b 100644
--- a/src/MeshlessFV/MfvCommon.cpp
+++ b/src/MeshlessFV/MfvCommon.cpp
@@ -169,8 +169,8 @@ int MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeH
     rho       = part.m*ndens;
 
     // If h changes below some fixed tolerance, exit iteration loop
-    if (part.rho > (FLOAT) 0.0 && part.h > h_lower_bound &&
-        fabs(part.h - h_fac*pow(volume,MeshlessFV<ndim>::invndim)) < h_converge) break;
+    if (rho > (FLOAT) 0.0 && h > h_lower_bound &&
+        fabs(h - h_fac*pow(volume,MeshlessFV<ndim>::invndim))*invh < h_converge) break;
 
 
     // Use fixed-point iteration, i.e. h_new = h_fac*(m/rho_old)^(1/ndim), for now.  If this does
-- 
2.43.0


From 9563fb441c33061b1cce7e1a5c7230541760518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:14 +0000
Subject: [PATCH 016/106] fix: MfvCommon::ComputeH discarded the omega and zeta
 sums it had computed

---
 src/MeshlessFV/MfvCommon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshlessFV/MfvCommon.cpp b/src/MeshlessFV/MfvCommon.cpp
index 67de69b..913fa19 100644
--- a/src/MeshlessFV/MfvCommon.cpp
+++ b/src/MeshlessFV/MfvCommon.cpp
@@ -217,9 +217,9 @@ int MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeH
   part.hfactor   = pow(1/part.h, ndim+1);
   part.hrangesqd = kern.kernrangesqd*part.h*part.h;
   part.div_v     = (FLOAT) 0.0;
-  part.invomega  = (FLOAT) 1.0 + (FLOAT) MeshlessFV<ndim>::invndim*part.h*part.invomega/part.ndens;
+  part.invomega  = (FLOAT) 1.0 + (FLOAT) MeshlessFV<ndim>::invndim*part.h*invomega/part.ndens;
   part.invomega  = (FLOAT) 1.0/part.invomega;
-  part.zeta      = -(FLOAT) MeshlessFV<ndim>::invndim*part.m*part.h*part.zeta*part.invomega/part.ndens;
+  part.zeta      = -(FLOAT) MeshlessFV<ndim>::invndim*part.m*part.h*zeta*part.invomega/part.ndens;
   
 
   // Set important thermal variables here
-- 
2.43.0


From 95d3b136c943965599f3dc43fc879383927e9b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 017/106] fix: OctTree leaf-cell count was taken from the
 previous allocation (zero on the first build)

---
 src/Tree/OctTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 00ef6e2..6f9b310 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -109,7 +109,7 @@ void OctTree<ndim,ParticleType,TreeCell>::AllocateTreeMemory(int Nparticles, int
     Ncells = max(Ncells,Ncellmax);
     Nparticles = max(Nparticles,Ntotmax);
     Ncells    = max((int) ((FLOAT) 2.0*(FLOAT) Ncells), 4*Nparticles);
-    gtot        = Ntotmax;
+    gtot        = Nparticles;
 
     firstCell = new int[lmax + 1];
     lastCell  = new int[lmax + 1];
-- 
2.43.0


From 991da6d89112b44010f4584b99178aa48157fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:57 +0000
Subject: [PATCH 018/106] fix: OctTree root of an empty tree pointed at a
 particle list that does not exist (endless loop)

---
 src/Tree/OctTree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 6f9b310..3725dfd 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -275,8 +275,8 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
   firstCell[0] = 0;
   lastCell[0]  = 0;
   celldata[0].N      = Ntot;
-  celldata[0].ifirst = _ifirst;
-  celldata[0].ilast  = _ilast;
+  celldata[0].ifirst = ifirst;
+  celldata[0].ilast  = ilast;
   celldata[0].level  = 0;
   celldata[0].copen  = -1;
   celldata[0].hmax = 0;
-- 
2.43.0


From 17493b883bae8b957e3e76769f78bca9765e6f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:31 +0000
Subject: [PATCH 019/106] fix: dust drag smoothing length used h_converge as an
 absolute length instead of a relative tolerance

---
 src/Common/Dust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/Dust.cpp b/src/Common/Dust.cpp
index 3f11433..b0f7207 100644
--- a/src/Common/Dust.cpp
+++ b/src/Common/Dust.cpp
@@ -892,7 +892,7 @@ int DustInterpolant<ndim, ParticleType, StoppingTime, Kernel>::DoInterpolate
 
     // If h changes below some fixed tolerance, exit iteration loop
     if (n > (FLOAT) 0.0 && h > h_lower_bound &&
-        fabs(h - h_fac*pow(n,-1./ndim)) < h_converge) break;
+        fabs(h - h_fac*pow(n,-1./ndim))*invh < h_converge) break;
 
     // Use fixed-point iteration, i.e. h_new = h_fac*(m/rho_old)^(1/ndim), for now.  If this does
     // not converge in a reasonable number of iterations (iteration_max), then assume something is
-- 
2.43.0


From eef269f0d68443f4706019629860fbd270ef1162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 020/106] fix: dalphadt accumulated over steps, and was dropped
 altogether with self-gravity

---
 src/GradhSph/GradhSph.cpp     | 1 +
 src/GradhSph/GradhSphTree.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index c014c59..9f3a6fc 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -264,6 +264,7 @@ int GradhSph<ndim, kernelclass>::ComputeH
   parti.hfactor   = pow(invh, ndim+1);
   parti.hrangesqd = kern.kernrangesqd*parti.h*parti.h;
   parti.div_v     = (FLOAT) 0.0;
+  parti.dalphadt  = (FLOAT) 0.0;
   assert(isnormal(part.h));
   assert(part.h >= h_lower_bound);
 
diff --git a/src/GradhSph/GradhSphTree.cpp b/src/GradhSph/GradhSphTree.cpp
index 991dfd5..2b40c21 100644
--- a/src/GradhSph/GradhSphTree.cpp
+++ b/src/GradhSph/GradhSphTree.cpp
@@ -508,6 +508,7 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphForces
       for (int j=0; j<Nactive; j++) {
         activepart[j].div_v     = (FLOAT) 0.0;
         activepart[j].dudt      = (FLOAT) 0.0;
+        activepart[j].dalphadt  = (FLOAT) 0.0;
         activepart[j].levelneib = 0;
         activepart[j].gpot      = (activepart[j].m/activepart[j].h)*sph->kernp->wpot(0.0);
         for (int k=0; k<ndim; k++) activepart[j].a[k]     = (FLOAT) 0.0;
@@ -615,6 +616,7 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphForces
         sphdata[i].gpot  += activepart[j].gpot;
         sphdata[i].gpot_hydro += activepart[j].gpot_hydro;
         sphdata[i].dudt  += activepart[j].dudt;
+        sphdata[i].dalphadt += activepart[j].dalphadt;
         sphdata[i].div_v += activepart[j].div_v;
         levelneib[i]      = max(levelneib[i],activepart[j].levelneib);
       }
-- 
2.43.0


From 6fda53e8a5c461846abf38f8a4dbe166146ffe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:35 +0000
Subject: [PATCH 021/106] fix: a particle moving to a newly added timestep
 level got a step length of zero for its correction terms

---
 src/Common/Simulation.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index b6b3711..ff737f4 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -2140,13 +2140,17 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
       for (i=0; i<hydro->Nhydro; i++) {
         Particle<ndim>& part = hydro->GetParticlePointer(i);
         if (part.flags.is_dead()) continue;
-        if (part.nlast == n) part.nstep = pow(2, level_step - part.level);
+        if (part.nlast == n) {
+          part.nstep   = pow(2, level_step - part.level);
+          part.dt_next = part.nstep*timestep;
+        }
       }
     }
     if (nbody != NULL) {
       for (i=0; i<nbody->Nnbody; i++) {
         if (nbody->nbodydata[i]->nlast == n) {
-          nbody->nbodydata[i]->nstep = pow(2, level_step - nbody->nbodydata[i]->level);
+          nbody->nbodydata[i]->nstep   = pow(2, level_step - nbody->nbodydata[i]->level);
+          nbody->nbodydata[i]->dt_next = nbody->nbodydata[i]->nstep*timestep;
         }
       }
     }
-- 
2.43.0


From c87ac157934c4c9b871a1414bff0c8a270ae192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 022/106] fix: the softened self-potential was counted twice
 (the particle is in its own neighbour list)

---
 src/GradhSph/GradhSphTree.cpp     | 2 +-
 src/MeshlessFV/MeshlessFVTree.cpp | 7 ++-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/GradhSph/GradhSphTree.cpp b/src/GradhSph/GradhSphTree.cpp
index 2b40c21..5eb04bc 100644
--- a/src/GradhSph/GradhSphTree.cpp
+++ b/src/GradhSph/GradhSphTree.cpp
@@ -510,7 +510,7 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphForces
         activepart[j].dudt      = (FLOAT) 0.0;
         activepart[j].dalphadt  = (FLOAT) 0.0;
         activepart[j].levelneib = 0;
-        activepart[j].gpot      = (activepart[j].m/activepart[j].h)*sph->kernp->wpot(0.0);
+        activepart[j].gpot      = (FLOAT) 0.0;   // Self-term is included in the neighbour list
         for (int k=0; k<ndim; k++) activepart[j].a[k]     = (FLOAT) 0.0;
         for (int k=0; k<ndim; k++) activepart[j].atree[k] = (FLOAT) 0.0;
       }
diff --git a/src/MeshlessFV/MeshlessFVTree.cpp b/src/MeshlessFV/MeshlessFVTree.cpp
index b5f1c48..24405d7 100644
--- a/src/MeshlessFV/MeshlessFVTree.cpp
+++ b/src/MeshlessFV/MeshlessFVTree.cpp
@@ -735,11 +735,8 @@ void MeshlessFVTree<ndim,ParticleType>::UpdateAllGravForces
       // Do the self-gravity contribution, or just the stars
       if (self_gravity) {
 
-        // Include self-term for potential
-        // TODO:
-        //   Check: Is this now accounted for in the neighbour list?
-        for (int j=0; j<Nactive; j++)
-          activepart[j].gpot = (activepart[j].m/activepart[j].h)*mfv->kernp->wpot((FLOAT) 0.0);
+        // Self-term for potential is included in the neighbour list
+        for (int j=0; j<Nactive; j++) activepart[j].gpot = (FLOAT) 0.0;
 
 
         // Compute neighbour list for cell depending on physics options
-- 
2.43.0


From cbf7bad5253f80e12b2b7c5654fef932defdf17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:19 +0000
Subject: [PATCH 023/106] fix: star-gas tree walk looped forever when a full
 leaf could not be added to the neighbour list

---
 src/Tree/HydroTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tree/HydroTree.cpp b/src/Tree/HydroTree.cpp
index 9d6ff30..7049260 100644
--- a/src/Tree/HydroTree.cpp
+++ b/src/Tree/HydroTree.cpp
@@ -590,7 +590,7 @@ void HydroTree<ndim,ParticleType>::UpdateAllStarGasForces
     int Ndirect;                                 // No. of direct-sum gravity particles
     int Ngravcell;                               // No. of gravity cells
     int Nneib;                                   // No. of neighbours
-    int Nneibmax = Ntot; //Nneibmaxbuf[ithread];
+    int Nneibmax = Ntot + Nleafmax;              // Max. no. of neighbours (room for a full leaf cell)
     int Ngravcellmax = Ngravcellmaxbuf[ithread]; // ..
     FLOAT macfactor;                             // Gravity MAC factor
     int* neiblist = new int[Nneibmax];           // ..
-- 
2.43.0


From 3e3a9920bb267a96c8178ae4697eda5100c4ed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 024/106] fix: GJ energy unit was 1e12 J

---
 src/Common/SimUnits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index fa423e1..e87d1f9 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -389,7 +389,7 @@ DOUBLE EnergyUnit::SIUnit(string unit_string)
 {
   if (unit_string == "J") return 1.0;
   else if (unit_string == "erg") return 1.0e-7;
-  else if (unit_string == "GJ") return 1.0e12;
+  else if (unit_string == "GJ") return 1.0e9;
   else if (unit_string == "eV") return e_charge;
   else if (unit_string == "10^40erg") return 1.0e33;
   else if (unit_string == "") return 1.0;
-- 
2.43.0


From 6b7be51ea9b6a84b6b83dbf0c8c40094a86a5029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 025/106] fix: one pascal is 10 (not 0.1) dyn cm^-2 in the cgs
 output factor

---
 src/Common/SimUnits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index e87d1f9..6aa4587 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -952,7 +952,7 @@ void SimUnits::SetupUnits(Parameters *params)
   press.outscale = (m.outscale*m.outSI) /
     (r.outscale*r.outSI*t.outscale*t.outSI*t.outscale*t.outSI);
   press.outscale = press.outscale / press.outSI;
-  press.outcgs   = 0.1*press.outSI;
+  press.outcgs   = 10.0*press.outSI;
 
   // Force units
   //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From a9d6b17683c27ffb5d08a2e5bdf57fc3dc30d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 026/106] fix: force unit read from non-existent parameters
 (forceinunit/forceoutunit)

---
 src/Common/SimUnits.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index 6aa4587..ba080b7 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -958,8 +958,8 @@ void SimUnits::SetupUnits(Parameters *params)
   //-----------------------------------------------------------------------------------------------
   f.inunit   = params->stringparams["finunit"];
   f.outunit  = params->stringparams["foutunit"];
-  f.inSI     = f.SIUnit(params->stringparams["forceinunit"]);
-  f.outSI    = f.SIUnit(params->stringparams["forceoutunit"]);
+  f.inSI     = f.SIUnit(params->stringparams["finunit"]);
+  f.outSI    = f.SIUnit(params->stringparams["foutunit"]);
   f.inscale  = (m.inscale*m.inSI*r.inscale*r.inSI)/
     (t.inscale*t.inscale*t.inSI*t.inSI);
   f.inscale  = f.inscale / f.inSI;
-- 
2.43.0


From d4b627e031e917fda44dd2852fd189107c19ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 027/106] fix: luminosity unit had the dimensions of a mass
 rate

---
 src/Common/SimUnits.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index ba080b7..b24154f 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -1036,9 +1036,9 @@ void SimUnits::SetupUnits(Parameters *params)
   L.outunit  = params->stringparams["Loutunit"];
   L.inSI     = L.SIUnit(params->stringparams["Linunit"]);
   L.outSI    = L.SIUnit(params->stringparams["Loutunit"]);
-  L.inscale  = m.inscale*m.inSI/(t.inscale*t.inSI);
+  L.inscale  = m.inscale*m.inSI*pow(r.inscale*r.inSI,2)/pow(t.inscale*t.inSI,3);
   L.inscale  = L.inscale / L.inSI;
-  L.outscale = m.outscale*m.outSI/(t.outscale*t.outSI);
+  L.outscale = m.outscale*m.outSI*pow(r.outscale*r.outSI,2)/pow(t.outscale*t.outSI,3);
   L.outscale = L.outscale / L.outSI;
   L.outcgs   = 1.0e7*L.outSI;
 
-- 
2.43.0


From 92e9954b0ee4416a9d2b1c7147c272c9d94ccd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 028/106] fix: polytropic EOS swapped gamma_eos and eta_eos, so
 its pressure and energy were inconsistent

---
 src/Thermal/PolytropicEOS.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Thermal/PolytropicEOS.cpp b/src/Thermal/PolytropicEOS.cpp
index 8e73688..f0a5c65 100644
--- a/src/Thermal/PolytropicEOS.cpp
+++ b/src/Thermal/PolytropicEOS.cpp
@@ -32,8 +32,8 @@
 //=================================================================================================
 template <int ndim>
 Polytropic<ndim>::Polytropic(Parameters* simparams, SimUnits *units):
-  EOS<ndim>(simparams->floatparams["eta_eos"]),
-  eta(simparams->floatparams["gamma_eos"]),
+  EOS<ndim>(simparams->floatparams["gamma_eos"]),
+  eta(simparams->floatparams["eta_eos"]),
   Kpoly(simparams->floatparams["Kpoly"])
 {
 }
@@ -94,7 +94,7 @@ FLOAT Polytropic<ndim>::SoundSpeed(const EosParticleProxy<ndim>&part)
 template <int ndim>
 FLOAT Polytropic<ndim>::SpecificInternalEnergy(const EosParticleProxy<ndim>&part)
 {
-  return Kpoly*pow(part.rho, gammam1)/gammam1;
+  return Kpoly*pow(part.rho, eta - (FLOAT) 1.0)/gammam1;
 }
 
 
-- 
2.43.0


From 3c6387babcc5672e08879f89c0df05b86ef7a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:13 +0000
Subject: [PATCH 029/106] fix: Plummer external potential ignored
 mplummer_extpot and rplummer_extpot

---
 src/Common/Simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index ff737f4..4630af6 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -1169,7 +1169,7 @@ void Simulation<ndim>::ProcessParameters(void)
       (intparams["kgrav"], floatparams["avert"], simbox.min[intparams["kgrav"]]);
   }
   else if (stringparams["external_potential"] == "plummer") {
-    extpot = new PlummerPotential<ndim>(floatparams["mplummer"], floatparams["rplummer"]);
+    extpot = new PlummerPotential<ndim>(floatparams["mplummer_extpot"], floatparams["rplummer_extpot"]);
   }
   else if (stringparams["external_potential"] == "silcc") {
     extpot = new SilccPotential<ndim>(floatparams["sigma_star"], floatparams["z_d"], simunits);
-- 
2.43.0


From 8507e6c212ece2f64e853bbfff6b4dc58fdb8b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:13 +0000
Subject: [PATCH 030/106] fix: vertical potential lacked the factor 2 that
 offsets the halving of potential energies in the diagnostics

---
 src/Headers/ExternalPotential.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/ExternalPotential.h b/src/Headers/ExternalPotential.h
index d0a5e13..a1a74b8 100644
--- a/src/Headers/ExternalPotential.h
+++ b/src/Headers/ExternalPotential.h
@@ -106,7 +106,7 @@ public:
   {
     ap[kgrav]    += avert;
     adotp[kgrav] += (FLOAT) 0.0;
-    potp         += (rp[kgrav] - rzero)*avert;
+    potp         += (FLOAT) 2.0*(rp[kgrav] - rzero)*avert;
 
     return;
   }
-- 
2.43.0


From 5e5963f76ba6212290c12a2d6f2b147504a2b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:13 +0000
Subject: [PATCH 031/106] fix: gaussrand ignored the requested mean and
 standard deviation

---
 src/Headers/RandomNumber.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Headers/RandomNumber.h b/src/Headers/RandomNumber.h
index 5f1b8c3..36cabc9 100644
--- a/src/Headers/RandomNumber.h
+++ b/src/Headers/RandomNumber.h
@@ -116,7 +116,7 @@ public:
       U = floatrand();
       V = floatrand();
     };
-    return sqrt(-2.0*log(U))*cos(2*pi*V);
+    return mean + sigma*sqrt(-2.0*log(U))*cos(2*pi*V);
   }
 
   void PrintRandomNumberRange(void)
@@ -163,7 +163,7 @@ class DefaultSystemRand : public RandomNumber
       U = floatrand();
       V = floatrand();
     };
-    return sqrt(-2.0*log(U))*cos(2*pi*V);
+    return mean + sigma*sqrt(-2.0*log(U))*cos(2*pi*V);
   }
 
   void PrintRandomNumberRange(void)
-- 
2.43.0


From 5dfe71658ba20ee1ef0dd38d127df5ea26507aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:13 +0000
Subject: [PATCH 032/106] fix: seed zero froze the xorshift generator and the
 system generator was never seeded

---
 src/Headers/RandomNumber.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Headers/RandomNumber.h b/src/Headers/RandomNumber.h
index 36cabc9..c6559b6 100644
--- a/src/Headers/RandomNumber.h
+++ b/src/Headers/RandomNumber.h
@@ -90,6 +90,8 @@ public:
   // Constructor and destructor
   XorshiftRand(unsigned long int _seed): RandomNumber(), x(_seed)
     {
+      // Zero is a fixed point of the xorshift generator
+      if (x == 0) x = 4101842887655102017;
       for (int k=0; k<10; k++) xorshiftrand();
     };
   //~XorshiftRand() {};
@@ -147,7 +149,7 @@ class DefaultSystemRand : public RandomNumber
  public:
 
   // Constructor and destructor
-  DefaultSystemRand(int _seed) : RandomNumber() {};
+  DefaultSystemRand(int _seed) : RandomNumber() {srand(_seed);};
   //~DefaultSystemRand();
 
   inline int intrand(void) {return (int) rand()%RAND_MAX;}
-- 
2.43.0


From 8c4e2b918ac7155f47bbb73ec0ee459ff87a8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:13 +0000
Subject: [PATCH 033/106] fix: parameter lines with tabs or carriage returns
 were misread and lines without '=' could set a parameter

---
 src/Common/Parameters.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Common/Parameters.cpp b/src/Common/Parameters.cpp
index df7c847..ba81a58 100644
--- a/src/Common/Parameters.cpp
+++ b/src/Common/Parameters.cpp
@@ -139,7 +139,7 @@ void Parameters::ParseLine
 
   // If line is not in the correct format (either equals is not present,
   // or equals is before the colon) then skip line and return.
-  if (equal_pos >= length || (colon_pos < length && colon_pos > equal_pos)) return;
+  if (equal_pos < 0 || equal_pos >= length || (colon_pos < length && colon_pos > equal_pos)) return;
 
   // Extract variable name and value from line
   std::string var_name = paramline.substr(colon_pos+1, equal_pos-colon_pos-1);
@@ -681,7 +681,7 @@ std::string Parameters::TrimWhiteSpace
 
   // Loop over all characters and ignore any white-space characters
   for (unsigned int i=0; i<instr.length(); i++) {
-    if (instr[i] != ' ') outstr += instr[i];
+    if (!isspace((unsigned char) instr[i])) outstr += instr[i];
   }
 
   return outstr;
-- 
2.43.0


From c367917f2e39224cf78d5b1cddac3951fa94ac94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:13 +0000
Subject: [PATCH 034/106] fix: recorded parameter file kept only six digits of
 each value

---
 src/Common/Parameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Common/Parameters.cpp b/src/Common/Parameters.cpp
index ba81a58..2bd64fb 100644
--- a/src/Common/Parameters.cpp
+++ b/src/Common/Parameters.cpp
@@ -644,6 +644,7 @@ void Parameters::RecordParametersToFile(void)
   debug1("[Parameters::RecordParametersToFile]");
 
   outfile.open(filename.c_str());
+  outfile.precision(17);
 
   // Write all integer parameters
   std::map <std::string, int>::iterator it;
-- 
2.43.0


From 6437b3862e1f003782914283f19008031f450309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:50 +0000
Subject: [PATCH 035/106] fix: exact Riemann solver gave no flux when a vacuum
 opens away from the face

---
 src/Hydrodynamics/RiemannSolver.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/Hydrodynamics/RiemannSolver.cpp b/src/Hydrodynamics/RiemannSolver.cpp
index 103db5b..f6a870b 100644
--- a/src/Hydrodynamics/RiemannSolver.cpp
+++ b/src/Hydrodynamics/RiemannSolver.cpp
@@ -268,7 +268,7 @@ void ExactRiemannSolver<ndim>::ComputeStarRegion
 template <int ndim>
 void ExactRiemannSolver<ndim>::SampleExactSolution
  (const FLOAT pstar,                   ///< [in] Pressure of central 'star' region
-  const FLOAT ustar,                   ///< [in] Velocity in central 'star' region
+  const FLOAT _ustar,                  ///< [in] Velocity in central 'star' region
   const FLOAT s,                       ///< [in] Dimensionless position to sample solution at
   const FLOAT pl,                      ///< [in] LHS pressure
   const FLOAT pr,                      ///< [in] RHS pressure
@@ -287,6 +287,21 @@ void ExactRiemannSolver<ndim>::SampleExactSolution
   FLOAT sl,sr;                         // ..
   FLOAT sh, st;                        // Rarefaction head and tail speed
   FLOAT c;                             // Parameter to determine fan position
+  FLOAT ustar = _ustar;                // Velocity of contact (or of the vacuum front)
+
+  // If a vacuum is created, both waves are rarefactions which end at the vacuum fronts
+  if (pstar <= (FLOAT) 0.0) {
+    sl = ul + g4*cl;
+    sr = ur - g4*cr;
+    if (s < sl) ustar = sl;
+    else if (s > sr) ustar = sr;
+    else {
+      d = (FLOAT) 0.0;
+      u = (FLOAT) 0.0;
+      p = (FLOAT) 0.0;
+      return;
+    }
+  }
 
 
   // If sampling point lies to the left of the contact discontinuity
@@ -464,11 +479,11 @@ void ExactRiemannSolver<ndim>::ComputeFluxes
                     cl, cr, uleft[0], uright[0], pstar, ustar);
 
 
-  // If not a vacuum state (i.e. pstar > 0), then sample solution
+  // Sample solution at the face, and compute fluxes if it is not inside a vacuum
   //-----------------------------------------------------------------------------------------------
-  if (pstar > 0.0) {
-    SampleExactSolution(pstar, ustar, 0.0, Wleft[ipress], Wright[ipress], Wleft[irho],
-                        Wright[irho], cl, cr, uleft[0], uright[0], p, d, u);
+  SampleExactSolution(pstar, ustar, 0.0, Wleft[ipress], Wright[ipress], Wleft[irho],
+                      Wright[irho], cl, cr, uleft[0], uright[0], p, d, u);
+  if (d > 0.0) {
     assert(p >= 0.0);
     assert(d >= 0.0);
 
-- 
2.43.0


From 6c13b7ed31bdf13af8e59683a2531bf9a53ed140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:50 +0000
Subject: [PATCH 036/106] fix: parameters set or read as numbers through the
 Python interface kept only six digits

---
 src/Common/Parameters.cpp | 1 +
 src/Common/Simulation.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/Common/Parameters.cpp b/src/Common/Parameters.cpp
index 2bd64fb..41e6b09 100644
--- a/src/Common/Parameters.cpp
+++ b/src/Common/Parameters.cpp
@@ -558,6 +558,7 @@ string Parameters::GetParameter
   }
   else if (floatparams.count(key) == 1) {
     std::stringstream value;
+    value.precision(17);
     value << floatparams[key];
     return value.str();
   }
diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index 4630af6..f73486e 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -333,6 +333,7 @@ void SimulationBase::SetParam
   double value)                        ///< [in] Parameter float (double) value
 {
   ostringstream convert;
+  convert.precision(17);
   convert << value;
   SetParam (key, convert.str());
 }
-- 
2.43.0


From d7330e2e2cea8059d2bcdc7d11ab03866a70fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:06 +0000
Subject: [PATCH 037/106] fix: HLLC left the energy in the old frame when
 moving to the contact frame

---
 src/Headers/RiemannSolver.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Headers/RiemannSolver.h b/src/Headers/RiemannSolver.h
index aa97950..50cddc0 100644
--- a/src/Headers/RiemannSolver.h
+++ b/src/Headers/RiemannSolver.h
@@ -222,6 +222,8 @@ class HllcRiemannSolver
     if (_zmf) {
       Smin -= vm ;
       Smax -= vm ;
+      Sl.e += Sl.rho*vm*(0.5*vm - Sl.vline) ;
+      Sr.e += Sr.rho*vm*(0.5*vm - Sr.vline) ;
       Sl.vline -= vm ;
       Sr.vline -= vm ;
 
-- 
2.43.0


From dc7a63c6ee8bc68d684b0aea7db1df1034169d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:00 +0000
Subject: [PATCH 038/106] fix: temperature of adiabatic and polytropic gas
 ignored the mean molecular weight

---
 src/Headers/EOS.h             | 1 +
 src/Thermal/AdiabaticEOS.cpp  | 2 +-
 src/Thermal/PolytropicEOS.cpp | 5 +++--
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Headers/EOS.h b/src/Headers/EOS.h
index 2d9de76..7271782 100644
--- a/src/Headers/EOS.h
+++ b/src/Headers/EOS.h
@@ -245,6 +245,7 @@ class Polytropic: public EOS<ndim>
 
   const FLOAT Kpoly;
   const FLOAT eta;
+  const FLOAT mu_bar;
 
 };
 
diff --git a/src/Thermal/AdiabaticEOS.cpp b/src/Thermal/AdiabaticEOS.cpp
index 4422fbf..cdaa506 100644
--- a/src/Thermal/AdiabaticEOS.cpp
+++ b/src/Thermal/AdiabaticEOS.cpp
@@ -92,7 +92,7 @@ FLOAT Adiabatic<ndim>::SpecificInternalEnergy(const EosParticleProxy<ndim>&part)
 template <int ndim>
 FLOAT Adiabatic<ndim>::Temperature(const EosParticleProxy<ndim>&part)
 {
-  return gammam1*part.u;
+  return mu_bar*gammam1*part.u;
 }
 
 
diff --git a/src/Thermal/PolytropicEOS.cpp b/src/Thermal/PolytropicEOS.cpp
index f0a5c65..925b9f2 100644
--- a/src/Thermal/PolytropicEOS.cpp
+++ b/src/Thermal/PolytropicEOS.cpp
@@ -34,7 +34,8 @@ template <int ndim>
 Polytropic<ndim>::Polytropic(Parameters* simparams, SimUnits *units):
   EOS<ndim>(simparams->floatparams["gamma_eos"]),
   eta(simparams->floatparams["eta_eos"]),
-  Kpoly(simparams->floatparams["Kpoly"])
+  Kpoly(simparams->floatparams["Kpoly"]),
+  mu_bar(simparams->floatparams["mu_bar"])
 {
 }
 
@@ -106,7 +107,7 @@ FLOAT Polytropic<ndim>::SpecificInternalEnergy(const EosParticleProxy<ndim>&part
 template <int ndim>
 FLOAT Polytropic<ndim>::Temperature(const EosParticleProxy<ndim>&part)
 {
-  return gammam1*part.u;
+  return mu_bar*gammam1*part.u;
 }
 
 
-- 
2.43.0


From eb2196d55de37e080c9add0c7ae552f1d4d8e57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:54 +0000
Subject: [PATCH 039/106] fix: magnetic field, charge and current density units
 were named after the opacity unit

---
 src/Common/SimUnits.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index b24154f..e8da430 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -1057,20 +1057,20 @@ void SimUnits::SetupUnits(Parameters *params)
 
   // Magnetic field units
   //-----------------------------------------------------------------------------------------------
-  B.inunit  = params->stringparams["kappainunit"];
-  B.outunit = params->stringparams["kappaoutunit"];
+  B.inunit  = params->stringparams["Binunit"];
+  B.outunit = params->stringparams["Boutunit"];
 
 
   // Electrical charge units
   //-----------------------------------------------------------------------------------------------
-  Q.inunit  = params->stringparams["kappainunit"];
-  Q.outunit = params->stringparams["kappaoutunit"];
+  Q.inunit  = params->stringparams["Qinunit"];
+  Q.outunit = params->stringparams["Qoutunit"];
 
 
   // Current density units
   //-----------------------------------------------------------------------------------------------
-  Jcur.inunit  = params->stringparams["kappainunit"];
-  Jcur.outunit = params->stringparams["kappaoutunit"];
+  Jcur.inunit  = params->stringparams["Jcurinunit"];
+  Jcur.outunit = params->stringparams["Jcuroutunit"];
 
 
   // Specific internal energy units
-- 
2.43.0


From 4171f00cfdcf632c50208f13bb7891ab7c226af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:33 +0000
Subject: [PATCH 040/106] hook: skip the line-of-sight kernel table under
 GANDALF_VERIF when GANDALF_VERIF_NO_LOS is set

---
 src/Hydrodynamics/TabulatedKernel.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Hydrodynamics/TabulatedKernel.cpp b/src/Hydrodynamics/TabulatedKernel.cpp
index da5a6f1..9b62190 100644
--- a/src/Hydrodynamics/TabulatedKernel.cpp
+++ b/src/Hydrodynamics/TabulatedKernel.cpp
@@ -155,6 +155,14 @@ void TabulatedKernel<ndim>::initializeTableLOS()
   const FLOAT step = kernel->kernrange/res;  // Step in the tabulated variable
   const int intsteps = 4000;                 // No. of steps per integration
 
+#ifdef GANDALF_VERIF
+  // The line-of-sight table is only used to render column densities, but dominates a short run
+  if (getenv("GANDALF_VERIF_NO_LOS")) {
+    for (i=0; i<res; i++) tableLOS[i] = (FLOAT) 0.0;
+    return;
+  }
+#endif
+
   //-----------------------------------------------------------------------------------------------
   for (i=0; i<res; i++) {
     impactparametersqd = pow((FLOAT) i*step,2);
-- 
2.43.0


From cb11b08d329b96cd00ae13c57edf839dade0288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:30 +0000
Subject: [PATCH 041/106] fix: sink density threshold of meshless runs was
 scaled by the wrong unit factor

---
 src/MeshlessFV/MeshlessFVSimulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MeshlessFV/MeshlessFVSimulation.cpp b/src/MeshlessFV/MeshlessFVSimulation.cpp
index 9705427..48e0ff3 100644
--- a/src/MeshlessFV/MeshlessFVSimulation.cpp
+++ b/src/MeshlessFV/MeshlessFVSimulation.cpp
@@ -328,7 +328,7 @@ void MeshlessFVSimulation<ndim>::ProcessParameters(void)
   sinks->smooth_accrete_dt   = floatparams["smooth_accrete_dt"];
   sinks->sink_radius_mode    = stringparams["sink_radius_mode"];
   sinks->rho_sink            = floatparams["rho_sink"];
-  sinks->rho_sink            /= simunits.rho.outscale/simunits.rho.outcgs;
+  sinks->rho_sink            /= (simunits.rho.outscale*simunits.rho.outcgs);
 
   if (sinks->sink_radius_mode == "fixed") {
     sinks->sink_radius = floatparams["sink_radius"]/simunits.r.outscale;
-- 
2.43.0


From fdcb85787e9c46f74b211e11d28aa0133eaec13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:30 +0000
Subject: [PATCH 042/106] fix: overlap test of new sinks used h times the fixed
 sink radius

---
 src/Headers/Sinks.h |  1 +
 src/Nbody/Sinks.cpp | 29 +++++++++++++++++++----------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/Headers/Sinks.h b/src/Headers/Sinks.h
index 396f7ed..f51b472 100644
--- a/src/Headers/Sinks.h
+++ b/src/Headers/Sinks.h
@@ -139,6 +139,7 @@ class Sinks
   void DeallocateMemory(void);
   void SearchForNewSinkParticles(const int, const FLOAT,
                                  Hydrodynamics<ndim> *, Nbody<ndim> *);
+  FLOAT NewSinkRadius(const Particle<ndim>&, const Hydrodynamics<ndim> *);
   void CreateNewSinkParticle(const int, const FLOAT, Particle<ndim>&,
                              Hydrodynamics<ndim> *, Nbody<ndim> *);
   void AccreteMassToSinks(const int, const FLOAT,
diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index f6b33c6..cce7566 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -187,7 +187,7 @@ void Sinks<ndim>::SearchForNewSinkParticles
         if (part.rho < -dadr/drsqd ) sink_flag = false;
 
         // If hydro particle neighbours a nearby sink, skip to next particle
-        if (drsqd < pow(sink_radius*part.h + sink[s].radius, 2)) sink_flag = false;
+        if (drsqd < pow(NewSinkRadius(part, hydro) + sink[s].radius, 2)) sink_flag = false;
 
         // Skip looping over other sinks if sink candidate has already been excluded
         if (!sink_flag) break;
@@ -279,6 +279,23 @@ void Sinks<ndim>::SearchForNewSinkParticles
 
 
 
+//=================================================================================================
+//  Sinks::NewSinkRadius
+/// Return the radius of the sink that would be created from the given hydro particle
+/// for the selected sink radius mode.
+//=================================================================================================
+template <int ndim>
+FLOAT Sinks<ndim>::NewSinkRadius
+ (const Particle<ndim> &part,          ///< [in] Hydro particle to be turned into a sink particle
+  const Hydrodynamics<ndim> *hydro)    ///< [in] Object containing hydro ptcls
+{
+  if (sink_radius_mode == "fixed") return sink_radius;
+  else if (sink_radius_mode == "hmult") return sink_radius*part.h;
+  else return hydro->kernp->kernrange*part.h;
+}
+
+
+
 //=================================================================================================
 //  Sinks::CreateNewSinkParticle
 /// Create a new sink particle from specified SPH particle 'isink' and then
@@ -307,15 +324,7 @@ void Sinks<ndim>::CreateNewSinkParticle
   nbody->nbodydata[nbody->Nnbody] = &(nbody->stardata[nbody->Nstar]);
 
   // Calculate new sink radius depending on chosen sink parameter
-  if (sink_radius_mode == "fixed") {
-    sink[Nsink].radius = sink_radius;
-  }
-  else if (sink_radius_mode == "hmult") {
-    sink[Nsink].radius = sink_radius*part.h;
-  }
-  else {
-    sink[Nsink].radius = hydro->kernp->kernrange*part.h;
-  }
+  sink[Nsink].radius = NewSinkRadius(part, hydro);
 
 
   // Calculate all other sink properties based on radius and SPH particle properties
-- 
2.43.0


From f646f083e02e4b61748894be24b0b2e20c19e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:30 +0000
Subject: [PATCH 043/106] fix: new sinks were rejected for receding from, not
 for approaching, another sink

---
 src/Nbody/Sinks.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index cce7566..0d66dbe 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -181,7 +181,7 @@ void Sinks<ndim>::SearchForNewSinkParticles
 
         // If sink candidate will reach another sink within the current freefall time, then
         // ignore candidate since it will likely be accreted or tidally perturbed
-        if (tff > drsqd / dvdr && dvdr > 0) sink_flag = false;
+        if (dvdr < (FLOAT) 0.0 && tff > -drsqd / dvdr) sink_flag = false;
 
         // Hill sphere criterion (slightly different numerical factor from Seren implementation)
         if (part.rho < -dadr/drsqd ) sink_flag = false;
-- 
2.43.0


From aef498f6419e67f4459662c1ce5cb80f86398032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:30 +0000
Subject: [PATCH 044/106] fix: inverse smoothing length of a new sink did not
 match its smoothing length

---
 src/Nbody/Sinks.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index 0d66dbe..fcd4847 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -329,7 +329,7 @@ void Sinks<ndim>::CreateNewSinkParticle
 
   // Calculate all other sink properties based on radius and SPH particle properties
   sink[Nsink].star->h            = hydro->kernp->invkernrange*sink[Nsink].radius;
-  sink[Nsink].star->invh         = (FLOAT) 1.0/part.h;
+  sink[Nsink].star->invh         = (FLOAT) 1.0/sink[Nsink].star->h;
   sink[Nsink].star->radius       = sink[Nsink].radius;
   //sink[Nsink].star->hfactor      = pow(sink[Nsink].star->invh,ndim);
   sink[Nsink].star->m            = part.m;
-- 
2.43.0


From 1bfa8ccfea2b50aa4fffd51ed7b674e43fb6be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:30 +0000
Subject: [PATCH 045/106] fix: printed SI values of the time and acceleration
 units used the mass unit

---
 src/Common/SimUnits.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index e8da430..6e0db5d 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -1132,13 +1132,13 @@ void SimUnits::OutputScalingFactors(Parameters *params)
        << "     (SI = " << m.outscale*m.outSI << " kg )" << endl;
   cout << "Time unit    = "
        << t.outscale << " " << params->stringparams["toutunit"]
-       << "     (SI = " << t.outscale*m.outSI << " s )" << endl;
+       << "     (SI = " << t.outscale*t.outSI << " s )" << endl;
   cout << "Velocity unit = "
        << v.outscale << " " << params->stringparams["voutunit"]
        << "     (SI = " << v.outscale*v.outSI << " m_s )" << endl;
   cout << "Accel. unit  = "
        << a.outscale << " " << params->stringparams["aoutunit"]
-       << "     (SI = " << a.outscale*m.outSI << " m_s2 )" << endl;
+       << "     (SI = " << a.outscale*a.outSI << " m_s2 )" << endl;
   cout << "Density unit  = "
        << rho.outscale << " " << params->stringparams["rhooutunit"]
        << "     (SI = " << rho.outscale*rho.outSI << " kg_m3 )" << endl;
-- 
2.43.0


From 525081a26fb863146faf889ebdaca964a253f9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:21 +0000
Subject: [PATCH 046/106] fix: unknown multipole option silently dropped the
 gravity of all distant cells

---
 src/Headers/Tree.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Headers/Tree.h b/src/Headers/Tree.h
index 0c94372..cfbfbb0 100644
--- a/src/Headers/Tree.h
+++ b/src/Headers/Tree.h
@@ -248,6 +248,11 @@ protected:
       else if (_gravity_mac != "geometric")
         ExceptionHandler::getIstance().raise
         ("Error: gravity_mac type, " + _gravity_mac + ", not recognised");
+
+      if (_multipole != "monopole" && _multipole != "fast_monopole" &&
+          _multipole != "quadrupole" && _multipole != "fast_quadrupole")
+        ExceptionHandler::getIstance().raise
+        ("Error: multipole type, " + _multipole + ", not recognised");
     };
 
   virtual ~Tree() { } ;
-- 
2.43.0


From c741ae15372d9c7cadce8e78ae7bdfd468f05686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:21 +0000
Subject: [PATCH 047/106] fix: unknown time_dependent_avisc was run as constant
 viscosity at the minimum alpha

---
 src/GradhSph/GradhSphSimulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSphSimulation.cpp b/src/GradhSph/GradhSphSimulation.cpp
index 77af3ce..8b804ac 100644
--- a/src/GradhSph/GradhSphSimulation.cpp
+++ b/src/GradhSph/GradhSphSimulation.cpp
@@ -81,7 +81,7 @@ void GradhSphSimulation<ndim>::ProcessSphParameters(void)
     avisc = mon97cd2010;
     tdavisc = cd2010;
   }
-  else if (stringparams["avisc"] == "mon97") {
+  else if (stringparams["avisc"] == "mon97" && stringparams["time_dependent_avisc"] == "none") {
     avisc = mon97;
     tdavisc = notdav;
   }
-- 
2.43.0


From 167b1c341b0a9237c0812e4ecbaae2c004d76caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:21 +0000
Subject: [PATCH 048/106] fix: unknown time_step_limiter was silently run
 without a limiter

---
 src/MeshlessFV/MeshlessFVSimulation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MeshlessFV/MeshlessFVSimulation.cpp b/src/MeshlessFV/MeshlessFVSimulation.cpp
index 48e0ff3..32cc135 100644
--- a/src/MeshlessFV/MeshlessFVSimulation.cpp
+++ b/src/MeshlessFV/MeshlessFVSimulation.cpp
@@ -397,6 +397,11 @@ void MeshlessFVSimulation<ndim>::ProcessParameters(void)
 #endif
 
   time_step_limiter_type = stringparams["time_step_limiter"] ;
+  if (time_step_limiter_type != "none" && time_step_limiter_type != "simple" &&
+      time_step_limiter_type != "conservative") {
+    string message = "Unrecognised parameter : time_step_limiter = " + time_step_limiter_type;
+    ExceptionHandler::getIstance().raise(message);
+  }
 
   // Flag that we've processed all parameters already
   ParametersProcessed = true;
-- 
2.43.0


From 170aa4148ba90491731f842c889a101f9e46c582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:27 +0000
Subject: [PATCH 049/106] fix: vertical potential used an uninitialised zero
 height with open boundaries

---
 src/Common/Simulation.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index f73486e..496839a 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -1166,8 +1166,13 @@ void Simulation<ndim>::ProcessParameters(void)
     extpot = new NullPotential<ndim>();
   }
   else if (stringparams["external_potential"] == "vertical") {
-    extpot = new VerticalPotential<ndim>
-      (intparams["kgrav"], floatparams["avert"], simbox.min[intparams["kgrav"]]);
+    const int kgrav = intparams["kgrav"];
+    if (kgrav < 0 || kgrav >= ndim) {
+      ExceptionHandler::getIstance().raise("Invalid parameter : kgrav must be a valid dimension");
+    }
+    // The lower edge of the box is only defined for non-open boundaries
+    const FLOAT rzero = simbox.boundary_lhs[kgrav] == openBoundary ? (FLOAT) 0.0 : simbox.min[kgrav];
+    extpot = new VerticalPotential<ndim>(kgrav, floatparams["avert"], rzero);
   }
   else if (stringparams["external_potential"] == "plummer") {
     extpot = new PlummerPotential<ndim>(floatparams["mplummer_extpot"], floatparams["rplummer_extpot"]);
-- 
2.43.0


From 2644fb9463f311119accfc23c956c34a12da93e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:27 +0000
Subject: [PATCH 050/106] fix: total energy of gas without self-gravity left
 out the external potential

---
 src/Common/SimAnalysis.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Common/SimAnalysis.hpp b/src/Common/SimAnalysis.hpp
index 9028e6e..2e523fa 100644
--- a/src/Common/SimAnalysis.hpp
+++ b/src/Common/SimAnalysis.hpp
@@ -160,7 +160,8 @@ void Simulation<ndim>::CalculateDiagnostics(void)
 	  for (k=0; k<ndim; k++) diag.vcom[k] /= diag.mtot;
   }
   if (hydro->hydro_forces == 1) diag.Etot += diag.utot;
-  if (hydro->self_gravity == 1 || nbody->Nstar > 0) diag.Etot += diag.gpetot;
+  if (hydro->self_gravity == 1 || nbody->Nstar > 0 ||
+      simparams->stringparams["external_potential"] != "none") diag.Etot += diag.gpetot;
 
 
   // Calculate binary statistics if required
-- 
2.43.0


From bfde56aef5cf99ab82f3fb2d1c8bf7e9e7993c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:58 +0000
Subject: [PATCH 051/106] fix: softened jerks in one and two dimensions used
 the wrong kernel normalisation

---
 src/Headers/Nbody.h           | 2 ++
 src/Nbody/NbodyHermite4.cpp   | 7 ++++---
 src/Nbody/NbodyHermite6TS.cpp | 7 ++++---
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/Headers/Nbody.h b/src/Headers/Nbody.h
index ac0fcd8..30b86bf 100644
--- a/src/Headers/Nbody.h
+++ b/src/Headers/Nbody.h
@@ -273,6 +273,7 @@ public:
   static const int vdim=ndim;             ///< Local copy of vdim
   //static const FLOAT invndim=1.0/ndim;   ///< Copy of 1/ndim
   kernelclass<ndim> kern;                 ///< SPH kernel
+  const FLOAT densfac;                    ///< Ratio of 3D to ndim kernel normalisation
 
 };
 
@@ -347,6 +348,7 @@ public:
   static const int vdim=ndim;             ///< Local copy of vdim
   //static const FLOAT invndim=1.0/ndim;   ///< Copy of 1/ndim
   kernelclass<ndim> kern;                 ///< SPH kernel
+  const FLOAT densfac;                    ///< Ratio of 3D to ndim kernel normalisation
 
 };
 #endif
diff --git a/src/Nbody/NbodyHermite4.cpp b/src/Nbody/NbodyHermite4.cpp
index d8d6a61..f7959bf 100644
--- a/src/Nbody/NbodyHermite4.cpp
+++ b/src/Nbody/NbodyHermite4.cpp
@@ -50,7 +50,8 @@ NbodyHermite4<ndim, kernelclass>::NbodyHermite4
 (int nbody_softening_aux, int _perturbers, int sub_systems_aux,
  DOUBLE nbody_mult_aux, string KernelName, int Npec) :
   Nbody<ndim>(nbody_softening_aux, _perturbers, sub_systems_aux, nbody_mult_aux, KernelName, Npec),
-  kern(kernelclass<ndim>(KernelName))
+  kern(kernelclass<ndim>(KernelName)),
+  densfac(kernelclass<3>(KernelName).w0(0.0)/kern.w0(0.0))
 {
   this->kernp = &kern;
 }
@@ -116,7 +117,7 @@ private(aperiodic, dr, dr_corr, drdt, drmag, drsqd, dv, invdrmag, invhmean, paux
       invhmean = (FLOAT) 2.0/(star[i]->h + star[j]->h);
       drdt     = DotProduct(dv,dr,ndim)*invdrmag;
       paux     = star[j]->m*invhmean*invhmean*kern.wgrav(drmag*invhmean)*invdrmag;
-      wmean    = kern.w0(drmag*invhmean)*powf(invhmean,ndim);
+      wmean    = densfac*kern.w0(drmag*invhmean)*invhmean*invhmean*invhmean;
 
       // Add contribution to main star array
       star[i]->gpot += star[j]->m*invhmean*kern.wpot(drmag*invhmean);
@@ -191,7 +192,7 @@ void NbodyHermite4<ndim, kernelclass>::CalculateDirectHydroForces
     invhmean = 2.0/(star->h + part.h);
     drdt     = DotProduct(dv,dr,ndim)*invdrmag;
     paux     = part.m*invhmean*invhmean*kern.wgrav(drmag*invhmean)*invdrmag;
-    wkern    = kern.w0(drmag*invhmean)*powf(invhmean,ndim);
+    wkern    = densfac*kern.w0(drmag*invhmean)*invhmean*invhmean*invhmean;
 
     // Add contribution to main star array
     for (k=0; k<ndim; k++) star->a[k] += paux*dr[k];
diff --git a/src/Nbody/NbodyHermite6TS.cpp b/src/Nbody/NbodyHermite6TS.cpp
index 9bd4fa4..bb8ac90 100644
--- a/src/Nbody/NbodyHermite6TS.cpp
+++ b/src/Nbody/NbodyHermite6TS.cpp
@@ -50,7 +50,8 @@ NbodyHermite6TS<ndim, kernelclass>::NbodyHermite6TS
 (int nbody_softening_aux, int _perturbers, int sub_systems_aux,
  DOUBLE nbody_mult_aux, string KernelName, int Npec) :
   Nbody<ndim>(nbody_softening_aux, _perturbers, sub_systems_aux, nbody_mult_aux, KernelName, Npec),
-  kern(kernelclass<ndim>(KernelName))
+  kern(kernelclass<ndim>(KernelName)),
+  densfac(kernelclass<3>(KernelName).w0(0.0)/kern.w0(0.0))
 {
   this->kernp = &kern;
 }
@@ -226,7 +227,7 @@ private(aperiodic, dr, dr_corr, drdt, drmag, drsqd, dv, invdrmag, invhmean, paux
       invhmean = 2.0/(star[i]->h + star[j]->h);
       drdt = DotProduct(dv,dr,ndim)*invdrmag;
       paux = star[j]->m*invhmean*invhmean*kern.wgrav(drmag*invhmean)*invdrmag;
-      wmean = kern.w0(drmag*invhmean)*powf(invhmean,ndim);
+      wmean = densfac*kern.w0(drmag*invhmean)*invhmean*invhmean*invhmean;
 
       // Add contribution to main star array
       star[i]->gpot += star[j]->m*invhmean*kern.wpot(drmag*invhmean);
@@ -300,7 +301,7 @@ void NbodyHermite6TS<ndim, kernelclass>::CalculateDirectHydroForces
     invhmean = 2.0/(star->h + part.h);
     drdt     = DotProduct(dv,dr,ndim)*invdrmag;
     paux     = part.m*invhmean*invhmean*kern.wgrav(drmag*invhmean)*invdrmag;
-    wkern    = kern.w0(drmag*invhmean)*powf(invhmean,ndim);
+    wkern    = densfac*kern.w0(drmag*invhmean)*invhmean*invhmean*invhmean;
 
     // Add contribution to main star array
     for (k=0; k<ndim; k++) star->a[k] += paux*dr[k];
-- 
2.43.0


From fa3f9e139fee93755d99729b37ad02118cb73f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:19 +0000
Subject: [PATCH 052/106] fix: sixth-order Hermite second derivatives were
 missing when softened and only from the last star otherwise

---
 src/Nbody/NbodyHermite6TS.cpp | 45 ++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/Nbody/NbodyHermite6TS.cpp b/src/Nbody/NbodyHermite6TS.cpp
index bb8ac90..a8e08e3 100644
--- a/src/Nbody/NbodyHermite6TS.cpp
+++ b/src/Nbody/NbodyHermite6TS.cpp
@@ -152,6 +152,7 @@ private(a, adot, afac, aperiodic, bfac, da, dr, dr_corr, drdt, drsqd, dv, dvsqd,
       for (int k=0; k<ndim; k++) dr[k] = star[j]->r[k] - star[i]->r[k];
       for (int k=0; k<ndim; k++) dv[k] = star[j]->v[k] - star[i]->v[k];
       for (int k=0; k<ndim; k++) da[k] = star[j]->a[k] - star[i]->a[k];
+      NearestPeriodicVector(simbox, dr, dr_corr);
       drsqd = DotProduct(dr,dr,ndim) + small_number_dp;
       dvsqd = DotProduct(dv,dv,ndim);
       invdrsqd = 1.0/drsqd;
@@ -165,7 +166,7 @@ private(a, adot, afac, aperiodic, bfac, da, dr, dr_corr, drdt, drsqd, dv, dvsqd,
       afac = DotProduct(dv,dr,ndim)*invdrsqd;
       bfac = dvsqd*invdrsqd + afac*afac + DotProduct(da,dr,ndim)*invdrsqd;
 
-      for (int k=0; k<ndim; k++) star[i]->a2dot[k] =
+      for (int k=0; k<ndim; k++) star[i]->a2dot[k] +=
         star[j]->m*da[k]*invdrsqd*invdrmag - 6.0*afac*adot[k] - 3.0*bfac*a[k];
 
     }
@@ -248,6 +249,46 @@ private(aperiodic, dr, dr_corr, drdt, drmag, drsqd, dv, invdrmag, invhmean, paux
   }
   //-----------------------------------------------------------------------------------------------
 
+  // Loop over all stars a second time to compute 2nd time derivative
+  //-----------------------------------------------------------------------------------------------
+#pragma omp parallel for if (N > this->maxNbodyOpenMp) default(none) shared(N, simbox, star)
+  for (int i=0; i<N; i++) {
+    if (not star[i]->flags.check(active)) continue;
+    for (int k=0; k<ndim; k++) star[i]->a2dot[k] = 0.0;
+
+    // Sum grav. contributions for all other stars (excluding star itself)
+    //---------------------------------------------------------------------------------------------
+    for (int j=0; j<N; j++) {
+      if (i == j) continue;
+
+      FLOAT da[ndim],dr[ndim],dr_corr[ndim],dv[ndim];
+      for (int k=0; k<ndim; k++) dr[k] = star[j]->r[k] - star[i]->r[k];
+      for (int k=0; k<ndim; k++) dv[k] = star[j]->v[k] - star[i]->v[k];
+      for (int k=0; k<ndim; k++) da[k] = star[j]->a[k] - star[i]->a[k];
+      NearestPeriodicVector(simbox, dr, dr_corr);
+      const FLOAT drsqd    = DotProduct(dr,dr,ndim);
+      const FLOAT drmag    = sqrt(drsqd);
+      const FLOAT invdrmag = 1.0/drmag;
+      const FLOAT invhmean = 2.0/(star[i]->h + star[j]->h);
+      const FLOAT invhcube = invhmean*invhmean*invhmean;
+      const FLOAT drdt     = DotProduct(dv,dr,ndim)*invdrmag;
+      const FLOAT d2rdt2   = (DotProduct(dv,dv,ndim) + DotProduct(dr,da,ndim) - drdt*drdt)*invdrmag;
+
+      // Force per unit separation, and its first and second derivatives with separation
+      const FLOAT paux  = star[j]->m*invhmean*invhmean*kern.wgrav(drmag*invhmean)*invdrmag;
+      const FLOAT wfac  = 2.0*twopi*star[j]->m*densfac*invhcube;
+      const FLOAT dpaux = (wfac*kern.w0(drmag*invhmean) - 3.0*paux)*invdrmag;
+      const FLOAT d2paux = (wfac*invhmean*kern.w1(drmag*invhmean) - 4.0*dpaux)*invdrmag;
+
+      for (int k=0; k<ndim; k++) star[i]->a2dot[k] += paux*da[k] + 2.0*dpaux*drdt*dv[k] +
+        (d2paux*drdt*drdt + dpaux*d2rdt2)*dr[k];
+
+    }
+    //---------------------------------------------------------------------------------------------
+
+  }
+  //-----------------------------------------------------------------------------------------------
+
   return;
 }
 
@@ -481,6 +522,8 @@ void NbodyHermite6TS<ndim, kernelclass>::AdvanceParticles
       (FLOAT) 0.5*onetwelfth_dp*star[i]->a2dot0[k]*dt2*dt2;
     for (k=0; k<vdim; k++) star[i]->v[k] = star[i]->v0[k] + star[i]->a0[k]*dt +
       (FLOAT) 0.5*star[i]->adot0[k]*dt2 + onesixth_dp*star[i]->a2dot0[k]*dt2*dt;
+    for (k=0; k<ndim; k++) star[i]->a[k] = star[i]->a0[k] + star[i]->adot0[k]*dt +
+      (FLOAT) 0.5*star[i]->a2dot0[k]*dt2;
 
     // If at end of step, set system particle as active
     if (dn == nstep) star[i]->flags.set(active);
-- 
2.43.0


From 3f0cc3bf86d12ba3b2de451e0c2025b548e5f4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:18 +0000
Subject: [PATCH 053/106] fix: global steps of two-stage integrators were twice
 the timestep and their velocity corrections half

---
 src/Common/Simulation.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index 496839a..cbddf8b 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -1743,13 +1743,14 @@ void Simulation<ndim>::ComputeGlobalTimestep() {
      dt = dt_min;
      MPI_Allreduce(&dt, &dt_min, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
  #endif
-     timestep = dt_min;
+     // The minimum timestep is divided into nresync base steps (as for block timesteps)
+     timestep = dt_min / (DOUBLE) nresync;
 
      // Set minimum timestep for all hydro and N-body particles
      if (hydro != NULL)
-       for (i=0; i<hydro->Nhydro; i++) hydro->GetParticlePointer(i).dt_next = timestep;
+       for (i=0; i<hydro->Nhydro; i++) hydro->GetParticlePointer(i).dt_next = dt_min;
      if (nbody != NULL)
-       for (i=0; i<nbody->Nnbody; i++) nbody->nbodydata[i]->dt_next = timestep;
+       for (i=0; i<nbody->Nnbody; i++) nbody->nbodydata[i]->dt_next = dt_min;
 
    }
    //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From bbade863acd73edbc4ab3b456dbdb328b1875528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 054/106] fix: velocity and energy corrections of steps cut
 short by the neighbour limiter used the full step

---
 src/Hydrodynamics/SphLeapfrogKDK.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Hydrodynamics/SphLeapfrogKDK.cpp b/src/Hydrodynamics/SphLeapfrogKDK.cpp
index 88fb25b..55a9861 100644
--- a/src/Hydrodynamics/SphLeapfrogKDK.cpp
+++ b/src/Hydrodynamics/SphLeapfrogKDK.cpp
@@ -285,7 +285,7 @@ int SphLeapfrogKDK<ndim, ParticleType>::CheckTimesteps
  (const int level_diff_max,            ///< [in] Max. allowed SPH neib dt diff
   const int level_step,                ///< [in] Level of base timestep
   const int n,                         ///< [in] Integer time in block time struct
-  const FLOAT timetep,                 ///< [in] Current time-step
+  const FLOAT timestep,                ///< [in] Current time-step
   Hydrodynamics<ndim>* hydro)
 {
   int dn;                              // Integer time since beginning of step
@@ -316,7 +316,10 @@ int SphLeapfrogKDK<ndim, ParticleType>::CheckTimesteps
 
       // If new level is correctly synchronised, then change all quantities
       if (dn%nnewstep == 0) {
-        if (dn > 0) part.nstep = dn;
+        if (dn > 0) {
+          part.nstep = dn;
+          part.dt    = dn*timestep;
+        }
         part.level  = level_new;
         part.flags.set(active);
         activecount++;
-- 
2.43.0


From 93ea70105e0e5e6d5e2ec60d7bbd4bf0392a069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:48 +0000
Subject: [PATCH 055/106] fix: first block steps of two-stage integrators
 recorded twice their length

---
 src/Common/Simulation.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index cbddf8b..e7b8c12 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -1859,6 +1859,9 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
     level_max  = Nlevels - 1;
     level_step = level_max + integration_step - 1;
     dt_max     = timestep*pow(2.0, level_max);
+    nresync    = pow(2, level_step);
+    assert(nresync > 0);
+    timestep   = dt_max / (DOUBLE) nresync;
 
     // Calculate the maximum level occupied by all SPH particles
     level_max_hydro = min(ComputeTimestepLevel(dt_min_hydro, dt_max), level_max);
@@ -1925,10 +1928,6 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
       }
     }
 
-    nresync = pow(2, level_step);
-    assert(nresync > 0);
-    timestep = dt_max / (DOUBLE) nresync;
-
   }
   // If not resynchronising, check if any hydro/N-body particles need to move
   // up or down timestep levels.
-- 
2.43.0


From bf588087bc27ee858acbbc34838e408b5728fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:53 +0000
Subject: [PATCH 056/106] fix: sixth-order Hermite start-up replaced softened
 second derivatives by unsoftened ones

---
 src/Nbody/NbodyHermite6TS.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Nbody/NbodyHermite6TS.cpp b/src/Nbody/NbodyHermite6TS.cpp
index a8e08e3..eb2a05e 100644
--- a/src/Nbody/NbodyHermite6TS.cpp
+++ b/src/Nbody/NbodyHermite6TS.cpp
@@ -433,7 +433,7 @@ void NbodyHermite6TS<ndim, kernelclass>::CalculateAllStartupQuantities
   //-----------------------------------------------------------------------------------------------
   for (i=0; i<N; i++) {
 
-    for (k=0; k<ndim; k++) star[i]->a2dot[k] = (FLOAT) 0.0;
+    // (2nd derivatives were already computed together with the forces, including any softening)
     for (k=0; k<ndim; k++) star[i]->a3dot[k] = (FLOAT) 0.0;
 
     // Sum grav. contributions for all other stars (excluding star itself)
@@ -463,7 +463,6 @@ void NbodyHermite6TS<ndim, kernelclass>::CalculateAllStartupQuantities
 
       for (k=0; k<ndim; k++) a2dot[k] =
         star[j]->m*da[k]*invdrsqd*invdrmag - 6.0*afac*adot[k] - 3.0*bfac*a[k];
-      for (k=0; k<ndim; k++) star[i]->a2dot[k] += a2dot[k];
       for (k=0; k<ndim; k++) star[i]->a3dot[k] += star[j]->m*dadot[k]*invdrsqd*invdrmag -
         9.0*afac*a2dot[k] - 9.0*bfac*adot[k] - 3.0*cfac*a[k];
 
-- 
2.43.0


From 81f21a7bed1728b415b6af040c08a4e147902955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:53 +0000
Subject: [PATCH 057/106] fix: stars in Runge-Kutta meshless runs were never
 advanced beyond their second step

---
 src/MeshlessFV/MfvRungeKuttaSimulation.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/MeshlessFV/MfvRungeKuttaSimulation.cpp b/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
index 074980c..37a97db 100644
--- a/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
+++ b/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
@@ -64,15 +64,6 @@ void MfvRungeKuttaSimulation<ndim>::MainLoop(void)
   debug2("[MfvRungeKuttaSimulation::MainLoop]");
 
 
-  // Compute timesteps for all particles
-  if (Nlevels == 1) {
-    this->ComputeGlobalTimestep();
-  }
-  else {
-    this->ComputeBlockTimesteps();
-  }
-  LocalGhosts->CopyHydroDataToGhosts(simbox,mfv);
-
   // Update the numerical fluxes of all active particles
   if (mfv->hydro_forces) {
     mfvneib->UpdateGodunovFluxes(timestep, mfv, nbody, simbox);
@@ -181,6 +172,14 @@ void MfvRungeKuttaSimulation<ndim>::MainLoop(void)
   //-----------------------------------------------------------------------------------------------
 
 
+  // Compute timesteps for all particles
+  if (Nlevels == 1) {
+    this->ComputeGlobalTimestep();
+  }
+  else {
+    this->ComputeBlockTimesteps();
+  }
+
   // End-step terms for all hydro particles
   hydroint->EndTimestep(n, t, timestep, mfv);
   nbody->EndTimestep(n, nbody->Nnbody, t, timestep, nbody->nbodydata);
-- 
2.43.0


From d4ac33dc4f9c36d125cdeb2145a41b87b1011290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:32 +0000
Subject: [PATCH 058/106] fix: stars integrated with leapfrog drift-kick-drift
 were never accelerated in meshless runs

---
 src/MeshlessFV/MeshlessFVSimulation.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/MeshlessFV/MeshlessFVSimulation.cpp b/src/MeshlessFV/MeshlessFVSimulation.cpp
index 32cc135..cd41831 100644
--- a/src/MeshlessFV/MeshlessFVSimulation.cpp
+++ b/src/MeshlessFV/MeshlessFVSimulation.cpp
@@ -466,7 +466,6 @@ void MeshlessFVSimulation<ndim>::PostInitialConditionsSetup(void)
   // Set time variables here (for now)
   nresync = 0;   // DAVID : Need to adapt this for block timesteps
   n = 0;
-  integration_step = 1;
   level_step = 1;
 
   // Set all relevant particle counters
-- 
2.43.0


From bebecebd29318a2c2f4490897918003471ee2c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:24 +0000
Subject: [PATCH 059/106] fix: isothermal sphere initial conditions read a
 parameter that does not exist and were always empty

---
 src/Ic/IsothermalSphereIc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Ic/IsothermalSphereIc.cpp b/src/Ic/IsothermalSphereIc.cpp
index 90ddece..56ca39c 100644
--- a/src/Ic/IsothermalSphereIc.cpp
+++ b/src/Ic/IsothermalSphereIc.cpp
@@ -59,7 +59,7 @@ void IsothermalSphereIc<ndim>::Generate(void)
     FLOAT *r;                         // Particle position vectors
 
     // Local copies of important parameters
-    int Npart            = simparams->intparams["Nsph"];
+    int Npart            = simparams->intparams["Nhydro"];
     FLOAT mcloud         = simparams->floatparams["mcloud"];
     FLOAT radius         = simparams->floatparams["radius"];
     FLOAT rhofluid       = simparams->floatparams["rhofluid1"];
@@ -131,7 +131,7 @@ void IsothermalSphereIc<ndim>::Generate(void)
     FLOAT pc = 3.08567758*pow(10,16);    // ..
 
     // Local copies of important parameters
-    int Npart            = simparams->intparams["Nsph"];
+    int Npart            = simparams->intparams["Nhydro"];
     FLOAT mcloud         = simparams->floatparams["mcloud"];
     FLOAT radius         = simparams->floatparams["radius"];
     FLOAT rhofluid       = simparams->floatparams["rhofluid1"];
@@ -230,7 +230,7 @@ void IsothermalSphereIc<ndim>::Generate(void)
     DOUBLE *vfield;                   // ..
 
     // Local copies of important parameters
-    int Npart            = simparams->intparams["Nsph"];
+    int Npart            = simparams->intparams["Nhydro"];
     int field_type       = simparams->intparams["field_type"];
     int gridsize         = simparams->intparams["gridsize"];
     FLOAT mcloud         = simparams->floatparams["mcloud"];
-- 
2.43.0


From 53850d946bd1d414d13d0779c82bb7ab36d0661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:31 +0000
Subject: [PATCH 060/106] fix: uniform random numbers could exceed 1 because
 2^64 was rounded down

---
 src/Common/RandomNumber.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/RandomNumber.cpp b/src/Common/RandomNumber.cpp
index 9d7dd3b..a9bfb9b 100644
--- a/src/Common/RandomNumber.cpp
+++ b/src/Common/RandomNumber.cpp
@@ -22,4 +22,4 @@
 #include "RandomNumber.h"
 
 
-const FLOAT XorshiftRand::invrandmax = 1.0/1.84467440737095e19;
+const FLOAT XorshiftRand::invrandmax = 1.0/18446744073709551616.0;
-- 
2.43.0


From ae52ab3de882baf42da3044b05cfb81dbacfd497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:50 +0000
Subject: [PATCH 061/106] fix: star radius and mean particle mass were written
 to snapshots uninitialised

---
 src/Headers/NbodyParticle.h         | 1 +
 src/Hydrodynamics/Hydrodynamics.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/Headers/NbodyParticle.h b/src/Headers/NbodyParticle.h
index aadd51d..4b3d5fd 100644
--- a/src/Headers/NbodyParticle.h
+++ b/src/Headers/NbodyParticle.h
@@ -100,6 +100,7 @@ class NbodyParticle
     for (int k=0; k<ndim; k++) adotpert[k] = (FLOAT) 0.0;
     m            = 0;
     h            = 0;
+    radius       = (FLOAT) 0.0;
     invh         = (FLOAT) 0.0;
     //hfactor      = (FLOAT) 0.0;
     gpot         = (FLOAT) 0.0;
diff --git a/src/Hydrodynamics/Hydrodynamics.cpp b/src/Hydrodynamics/Hydrodynamics.cpp
index 8fde04a..9a7e9e7 100644
--- a/src/Hydrodynamics/Hydrodynamics.cpp
+++ b/src/Hydrodynamics/Hydrodynamics.cpp
@@ -72,6 +72,7 @@ Hydrodynamics<ndim>::Hydrodynamics(int hydro_forces_aux, int self_gravity_aux, F
   NImportedParticles = 0;
   Nmpighost          = 0;
   NPeriodicGhost     = 0;
+  mmean              = (FLOAT) 0.0;
   rho_sink           = params->floatparams["rho_sink"]/(units.rho.outscale*units.rho.outcgs);
   create_sinks       = params->intparams["create_sinks"];
   sink_particles     = params->intparams["sink_particles"];
-- 
2.43.0


From 1fe9eb551a316c213013f850019b7fca581644b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:25 +0000
Subject: [PATCH 062/106] fix: the Evrard sphere had the wrong size and profile
 for a radius other than one

---
 src/Ic/EvrardCollapseIc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ic/EvrardCollapseIc.cpp b/src/Ic/EvrardCollapseIc.cpp
index fe8e8a0..b0316a3 100644
--- a/src/Ic/EvrardCollapseIc.cpp
+++ b/src/Ic/EvrardCollapseIc.cpp
@@ -100,7 +100,7 @@ void EvrardCollapseIc<ndim>::Generate(void)
     FLOAT* ri = pos + ndim * i ;
 
     FLOAT r = sqrt(DotProduct(ri, ri, ndim) + small_number) ;
-    FLOAT rnew = radius * r * sqrt(r) ;
+    FLOAT rnew = r * sqrt(r / radius) ;
     for (k=0; k < ndim; k++){
       P.r[k] = ri[k] * rnew / r ;
       P.v[k] = 0 ;
-- 
2.43.0


From 876d3202d765761d41b0aeb279cf8995b88adfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:25 +0000
Subject: [PATCH 063/106] fix: the Boss-Bodenheimer cloud had the wrong mass
 when the lattice gave another number of particles

---
 src/Ic/BossBodenheimerIc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Ic/BossBodenheimerIc.cpp b/src/Ic/BossBodenheimerIc.cpp
index 99a7d68..48db5b5 100644
--- a/src/Ic/BossBodenheimerIc.cpp
+++ b/src/Ic/BossBodenheimerIc.cpp
@@ -88,7 +88,6 @@ void BossBodenheimerIc<ndim>::Generate(void)
 
     FLOAT *r = new FLOAT[ndim*Npart];
     FLOAT *v = new FLOAT[ndim*Npart];
-    FLOAT mp = mcloud / (FLOAT) Npart;
 
     // Add a sphere of random particles with origin 'rcentre' and radius 'radius'
     for (k=0; k<ndim; k++) rcentre[k] = (FLOAT) 0.0;
@@ -110,6 +109,8 @@ void BossBodenheimerIc<ndim>::Generate(void)
       ExceptionHandler::getIstance().raise(message);
     }
 
+    const FLOAT mp = mcloud / (FLOAT) Npart;
+
     // Allocate local and main particle memory
     hydro->Nhydro = Npart;
     if (dusty_collapse) hydro->Nhydro *= 2;
-- 
2.43.0


From c7c5881fa3c3d022c34882951c4413e463a93459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:25 +0000
Subject: [PATCH 064/106] fix: binaries approaching periapsis were set up on a
 mirrored orbit

---
 src/Ic/Ic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Ic/Ic.cpp b/src/Ic/Ic.cpp
index 8139b49..ca5c998 100644
--- a/src/Ic/Ic.cpp
+++ b/src/Ic/Ic.cpp
@@ -316,7 +316,8 @@ void Ic<ndim>::AddBinaryStar
 
     // ..
     FLOAT hc = sqrt(((FLOAT) 1.0 + eccent*cos(theta))/((FLOAT) 2.0 - sep/sma));
-    FLOAT phi = acos(hc);
+    FLOAT phi = acos(min(hc, (FLOAT) 1.0));
+    if (theta < (FLOAT) 0.0) phi = -phi;
 
     // Set properties of star 1
     // put on x-y plane to start
-- 
2.43.0


From 87fbdb943adb5bdd8014b39d0e55ef0ba75f83b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:25 +0000
Subject: [PATCH 065/106] fix: three-dimensional hexagonal lattices reached
 outside their box

---
 src/Ic/Ic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ic/Ic.cpp b/src/Ic/Ic.cpp
index ca5c998..ebdaf1f 100644
--- a/src/Ic/Ic.cpp
+++ b/src/Ic/Ic.cpp
@@ -753,7 +753,7 @@ void Ic<ndim>::AddHexagonalLattice
         for (ii=0; ii<Nlattice[0]; ii++) {
           i = kk*Nlattice[0]*Nlattice[1] + jj*Nlattice[0] + ii;
           r[ndim*i] = box.min[0] + (FLOAT) 0.5*rad[0] +
-            ((FLOAT) 2.0*(FLOAT) ii + (FLOAT) (jj%2) + (FLOAT) ((kk+1)%2))*rad[0];
+            ((FLOAT) 2.0*(FLOAT) ii + (FLOAT) ((jj + kk + 1)%2))*rad[0];
           r[ndim*i + 1] = box.min[1] + (FLOAT) 0.5*sqrt((FLOAT) 3.0)*rad[1] +
             (FLOAT) jj*sqrt((FLOAT) 3.0)*rad[1] + (FLOAT) (kk%2)*rad[1]/sqrt((FLOAT) 3.0);
           r[ndim*i + 2] = box.min[2] + sqrt((FLOAT) 6.0)*rad[2]/(FLOAT) 3.0 +
-- 
2.43.0


From 081502487412f16bffad3de6bbd95541a7837e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:51 +0000
Subject: [PATCH 066/106] fix: the third Euler angle of binary, triple and
 quadruple systems was ignored

---
 src/Ic/BinaryAccretionIc.cpp    |  2 +-
 src/Ic/HierarchicalSystemIc.cpp | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Ic/BinaryAccretionIc.cpp b/src/Ic/BinaryAccretionIc.cpp
index 70af5ae..adff5c8 100644
--- a/src/Ic/BinaryAccretionIc.cpp
+++ b/src/Ic/BinaryAccretionIc.cpp
@@ -284,7 +284,7 @@ void BinaryAccretionIc<ndim>::Generate(void)
         rbinary[0] = icBox.min[0] + (FLOAT) 0.0625*icBox.size[0];
       }
       vbinary[0] = vmachbin*hydro->eos->SoundSpeed(hydro->GetParticlePointer(0));
-      Ic<ndim>::AddBinaryStar(abin,ebin,m1,m2,hsink,hsink,phirot,thetarot,psirot,0.0,
+      Ic<ndim>::AddBinaryStar(abin,ebin,m1,m2,hsink,hsink,phirot,thetarot,0.0,psirot,
                               rbinary,vbinary,nbody->stardata[0],nbody->stardata[1]);
       sinks->sink[0].star = &(nbody->stardata[0]);
       sinks->sink[1].star = &(nbody->stardata[1]);
diff --git a/src/Ic/HierarchicalSystemIc.cpp b/src/Ic/HierarchicalSystemIc.cpp
index d304e8a..9fdcb79 100644
--- a/src/Ic/HierarchicalSystemIc.cpp
+++ b/src/Ic/HierarchicalSystemIc.cpp
@@ -80,8 +80,8 @@ void HierarchicalSystemIc<ndim>::Generate(void)
     sim->AllocateParticleMemory();
 
     // Add binary star
-    Ic<ndim>::AddBinaryStar(abin, ebin, m1, m2, (FLOAT) 0.01, (FLOAT) 0.01, phirot, thetarot, psirot,
-                            (FLOAT) 0.0, rbinary, vbinary, nbody->stardata[0], nbody->stardata[1]);
+    Ic<ndim>::AddBinaryStar(abin, ebin, m1, m2, (FLOAT) 0.01, (FLOAT) 0.01, phirot, thetarot, (FLOAT) 0.0,
+                            psirot, rbinary, vbinary, nbody->stardata[0], nbody->stardata[1]);
 
   }
   //-----------------------------------------------------------------------------------------------
@@ -107,11 +107,11 @@ void HierarchicalSystemIc<ndim>::Generate(void)
 
     // Compute main binary orbit
     Ic<ndim>::AddBinaryStar(abin1, ebin1, m1+m2, m3, (FLOAT) 0.0001, (FLOAT) 0.0001, phirot, thetarot,
-                            psirot, (FLOAT) 0.0, rbinary, vbinary, b1, nbody->stardata[2]);
+                            (FLOAT) 0.0, psirot, rbinary, vbinary, b1, nbody->stardata[2]);
 
     // Now compute both components
     Ic<ndim>::AddBinaryStar(abin2, ebin2, m1, m2, (FLOAT) 0.0001, (FLOAT) 0.0001, phirot, thetarot,
-                            psirot, (FLOAT) 0.0, b1.r, b1.v, nbody->stardata[0], nbody->stardata[1]);
+                            (FLOAT) 0.0, psirot, b1.r, b1.v, nbody->stardata[0], nbody->stardata[1]);
 
 
   }
@@ -140,13 +140,13 @@ void HierarchicalSystemIc<ndim>::Generate(void)
 
     // Compute main binary orbit
     Ic<ndim>::AddBinaryStar(abin1, ebin1, m1+m2, m3+m4, (FLOAT) 0.01, (FLOAT) 0.01, phirot,
-                            thetarot, psirot, (FLOAT) 0.0, rbinary, vbinary, b1, b2);
+                            thetarot, (FLOAT) 0.0, psirot, rbinary, vbinary, b1, b2);
 
     // Now compute components of both inner binaries
     Ic<ndim>::AddBinaryStar(abin2, ebin2, m1, m2, (FLOAT) 0.0001, (FLOAT) 0.0001, phirot, thetarot,
-                            psirot, (FLOAT) 0.0, b1.r, b1.v, nbody->stardata[0], nbody->stardata[1]);
+                            (FLOAT) 0.0, psirot, b1.r, b1.v, nbody->stardata[0], nbody->stardata[1]);
     Ic<ndim>::AddBinaryStar(abin2, ebin2, m3, m4, (FLOAT) 0.0001, (FLOAT) 0.0001, phirot, thetarot,
-                            psirot, (FLOAT) 0.0, b2.r, b2.v, nbody->stardata[2], nbody->stardata[3]);
+                            (FLOAT) 0.0, psirot, b2.r, b2.v, nbody->stardata[2], nbody->stardata[3]);
 
   }
   //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From bf5e87f861d801fabf5ba2fac0739935a8afb047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:51 +0000
Subject: [PATCH 067/106] fix: second fluid of the binary accretion set-up had
 wrong masses and smoothing lengths

---
 src/Ic/BinaryAccretionIc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ic/BinaryAccretionIc.cpp b/src/Ic/BinaryAccretionIc.cpp
index adff5c8..dbd52dc 100644
--- a/src/Ic/BinaryAccretionIc.cpp
+++ b/src/Ic/BinaryAccretionIc.cpp
@@ -223,8 +223,8 @@ void BinaryAccretionIc<ndim>::Generate(void)
         part.r[0] += (FLOAT) 0.25*icBox.size[0];
         if (part.r[0] > icBox.max[0]) part.r[0] -= icBox.size[0];
         for (k=0; k<ndim; k++) part.v[k] = (FLOAT) 0.0;
+        part.m = rhofluid2*volume2/(FLOAT) Nbox2;
         part.h = hydro->h_fac*pow(part.m/rhofluid2,invndim);
-        part.m = rhofluid2*volume2/(FLOAT) Nbox1;
         part.u = press1/rhofluid2/gammaone;
       }
       delete[] r2;
-- 
2.43.0


From 05f828d2c39d13dfba16d6e80c33d46e190da16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:51 +0000
Subject: [PATCH 068/106] fix: the pressure support of the disc was given to
 the dust instead of the gas, and twice in 2D

---
 src/Ic/DiscIc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Ic/DiscIc.cpp b/src/Ic/DiscIc.cpp
index 030fcea..455c66a 100644
--- a/src/Ic/DiscIc.cpp
+++ b/src/Ic/DiscIc.cpp
@@ -181,9 +181,9 @@ void DiscIc<ndim>::Generate(void)
 
     // Keplerian velocity
     FLOAT vk = std::sqrt(GStar_M/r);
-    if (i>Npart) {
+    if (i<Npart) {
       if (ndim==2)
-        vk *= std::sqrt(1.-(H/r)*(H/r)*(p+2*q));
+        vk *= std::sqrt(1.-0.5*(H/r)*(H/r)*(p+2*q));
       else
         vk *= std::sqrt(1.-0.5*(H/r)*(H/r)*(1.5+p+q));
     }
-- 
2.43.0


From 4c46c5ff5e3faae3bb8d4dc72ca437c28cff91ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:51 +0000
Subject: [PATCH 069/106] fix: estimate of the disc density was wrong for a
 surface density slope of 2

---
 src/Ic/DiscIc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ic/DiscIc.cpp b/src/Ic/DiscIc.cpp
index 455c66a..8647334 100644
--- a/src/Ic/DiscIc.cpp
+++ b/src/Ic/DiscIc.cpp
@@ -112,7 +112,7 @@ void DiscIc<ndim>::Generate(void)
   if (p!=2)
     sig0=(2-p)*mass*(1-DustGasRatio)*std::pow(rin,-p)/(2*pi) / (pow(rout,2-p)-pow(rin,2-p));
   else
-    sig0 = mass*(1-DustGasRatio)*rin*rin/(2*pi) / (log(rout)-log(rin));
+    sig0 = mass*(1-DustGasRatio)/(rin*rin)/(2*pi) / (log(rout)-log(rin));
 
   FLOAT f_max;
   if (p <=1 ) {
-- 
2.43.0


From 8255307a1e058860b3f0cf039d1cc6dc84a5614d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:46 +0000
Subject: [PATCH 070/106] fix: column snapshots contained accreted (dead)
 particles

---
 src/Common/SimulationIO.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 05ea562..9341d18 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -444,6 +444,7 @@ template <int ndim>
 bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
 {
   int i;
+  int Nlivehydro = 0;                  // No. of live (i.e. not accreted) hydro particles
   ofstream outfile;
 
   debug2("[Simulation::WriteColumnSnapshotFile]");
@@ -452,7 +453,10 @@ bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
 
   // Open file and read header information
   outfile.open(filename.c_str());
-  outfile << hydro->Nhydro << endl;
+  for (i=0; i<hydro->Nhydro; i++) {
+    if (!hydro->GetParticlePointer(i).flags.is_dead()) Nlivehydro++;
+  }
+  outfile << Nlivehydro << endl;
   outfile << nbody->Nstar << endl;
   outfile << ndim << endl;
   outfile << t*simunits.t.outscale << endl;
@@ -461,6 +465,7 @@ bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
   //-----------------------------------------------------------------------------------------------
   for (i=0; i<hydro->Nhydro; i++) {
     Particle<ndim>& part = hydro->GetParticlePointer(i);
+    if (part.flags.is_dead()) continue;
     if (ndim == 1) {
       outfile << part.r[0]*simunits.r.outscale << "   "
               << part.v[0]*simunits.v.outscale << "   "
-- 
2.43.0


From fad8371d48e06783fe626154e7dd1dbc74485f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:46 +0000
Subject: [PATCH 071/106] fix: time of column snapshots was converted to code
 units twice

---
 src/Common/SimulationIO.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 9341d18..1170442 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -202,8 +202,9 @@ bool Simulation<ndim>::ReadColumnSnapshotFile
 
   infile.open(filename.c_str());
 
+  // The header time is in code units, but all variables are later rescaled to code units
   ReadColumnHeaderFile(infile, info);
-  t = info.t;
+  t = info.t*simunits.t.inscale;
   tsnaplast = t;
 
   hydro->Nhydro = info.Nhydro;
-- 
2.43.0


From e03da71ee26c103c50b8b8dc0bfe92df63ae5d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:46 +0000
Subject: [PATCH 072/106] fix: time of seren_form snapshots was only read on
 restarts

---
 src/Common/SimulationIO.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 1170442..b0a41ab 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -679,13 +679,13 @@ bool Simulation<ndim>::ReadSerenFormSnapshotFile(string filename)
   //dmdt_range_aux = idata[29];
   nunit          = idata[19];
   ndata          = idata[20];
+  t              = ddata[0];
 
   // Variables that should be remembered for restarts
   if (restart) {
     Noutsnap      = ilpdata[0];
     Nsteps        = ilpdata[1];
     Noutlitesnap  = ilpdata[10];
-    t             = ddata[0];
     tsnaplast     = ddata[1];
     hydro->mmean  = ddata[2];
     tlitesnaplast = ddata[10];
-- 
2.43.0


From dcaa5ad5f2d708d629c68b433b64fcc908c7635b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:14 +0000
Subject: [PATCH 073/106] fix: inter-cloud particles became gas when read from
 a snapshot

---
 src/Common/SimulationIO.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index b0a41ab..dedf7dc 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -899,6 +899,8 @@ bool Simulation<ndim>::ReadSerenFormSnapshotFile(string filename)
       int ptype;
       switch (type) {
         case 3:
+          ptype = icm_type;
+          break;
         case 4:
           ptype = gas_type;
           break;
@@ -1555,6 +1557,8 @@ bool Simulation<ndim>::ReadSerenUnformSnapshotFile(string filename)
       int ptype;
       switch (type) {
         case 3:
+          ptype = icm_type;
+          break ;
         case 4:
           ptype = gas_type;
           break ;
-- 
2.43.0


From cd11cbc4d095a35ca73d305647a8eb66c055fea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:35 +0000
Subject: [PATCH 074/106] fix: units recorded in snapshot files were ignored
 when reading them

---
 src/Common/SimulationIO.hpp | 52 +++++++++++++++++++++----------------
 src/Headers/Simulation.h    |  4 +++
 2 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index dedf7dc..b992297 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -153,6 +153,32 @@ HeaderInfo SimulationBase::ReadHeaderSnapshotFile
 
 
 
+//=================================================================================================
+//  SimulationBase::SetInputUnits
+/// Use the units recorded in a snapshot file (if any) as the units of the data read from it.
+//=================================================================================================
+void SimulationBase::SetInputUnits
+ (string unit_data[],                  ///< [in] Names of units, in the order of the snapshot file
+  int nunit)                           ///< [in] No. of units in the snapshot file
+{
+  const char *names[22] = {"r", "m", "t", "v", "a", "rho", "sigma", "press", "f", "E", "mom",
+                           "angmom", "angvel", "dmdt", "L", "kappa", "B", "Q", "Jcur", "u",
+                           "temp", "dudt"};
+
+  if (nunit < 21 || simunits.dimensionless) return;
+
+  for (int i=0; i<22 && i<nunit; i++) {
+    simparams->stringparams[string(names[i]) + "inunit"] = unit_data[i];
+  }
+  if (nunit < 22) simparams->stringparams["dudtinunit"] = simparams->stringparams["dudtoutunit"];
+  simunits.ReadInputUnits = true;
+  simunits.SetupUnits(simparams);
+
+  return;
+}
+
+
+
 //=================================================================================================
 //  Simulation::ReadColumnHeaderFile
 /// Function for reading the header file of a snapshot. Does not modify the variables of the
@@ -700,29 +726,8 @@ bool Simulation<ndim>::ReadSerenFormSnapshotFile(string filename)
     for (i=0; i<nunit; i++) infile >> unit_data[i];
   }
 
-  // Read in unit variables here
-  simunits.r.inunit      = unit_data[0];
-  simunits.m.inunit      = unit_data[1];
-  simunits.t.inunit      = unit_data[2];
-  simunits.v.inunit      = unit_data[3];
-  simunits.a.inunit      = unit_data[4];
-  simunits.rho.inunit    = unit_data[5];
-  simunits.sigma.inunit  = unit_data[6];
-  simunits.press.inunit  = unit_data[7];
-  simunits.f.inunit      = unit_data[8];
-  simunits.E.inunit      = unit_data[9];
-  simunits.mom.inunit    = unit_data[10];
-  simunits.angmom.inunit = unit_data[11];
-  simunits.angvel.inunit = unit_data[12];
-  simunits.dmdt.inunit   = unit_data[13];
-  simunits.L.inunit      = unit_data[14];
-  simunits.kappa.inunit  = unit_data[15];
-  simunits.B.inunit      = unit_data[16];
-  simunits.Q.inunit      = unit_data[17];
-  simunits.Jcur.inunit   = unit_data[18];
-  simunits.u.inunit      = unit_data[19];
-  simunits.temp.inunit   = unit_data[20];
-  if (nunit > 21) simunits.dudt.inunit = unit_data[21];
+  // Use units recorded in the file as the input units
+  SetInputUnits(unit_data, nunit);
 
   // Read infile ids of arrays contained in file
   if (ndata > 0) {
@@ -1408,6 +1413,7 @@ bool Simulation<ndim>::ReadSerenUnformSnapshotFile(string filename)
     unit_data[i] = std::string(buffer,string_length);
     unit_data[i] = simparams->TrimWhiteSpace(unit_data[i]);
   }
+  SetInputUnits(unit_data, nunit);
 
   // Read data_id
   for (int i=0; i< ndata; i++) {
diff --git a/src/Headers/Simulation.h b/src/Headers/Simulation.h
index 84eaee4..23f1f56 100644
--- a/src/Headers/Simulation.h
+++ b/src/Headers/Simulation.h
@@ -106,6 +106,10 @@ class SimulationBase
 
   std::list<string> keys;
 
+ protected:
+
+  void SetInputUnits(string [], int);
+
  public:
 
   static const bool MPI;
-- 
2.43.0


From 1cbb0e0540f330c914535f4fa9ffadd857ba3168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:36 +0000
Subject: [PATCH 075/106] fix: particles in lite snapshots were not grouped by
 type, unlike their header

---
 src/Common/SimulationIO.hpp | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index b992297..a94d7fd 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -2441,43 +2441,48 @@ bool Simulation<ndim>::WriteSerenLiteSnapshotFile(string filename)
   //-----------------------------------------------------------------------------------------------
   if (hydro->Nhydro > 0) {
 
+    // Group the particles by type, in the order of the header
+    std::vector<int> order;
+    const int ptypes[4] = {icm_type, gas_type, cdm_type, dust_type};
+    for (int itype=0; itype<4; itype++) {
+      for (i=0; i<hydro->Nhydro; i++) {
+        Particle<ndim>& part = hydro->GetParticlePointer(i);
+        if (part.ptype == ptypes[itype] && !part.flags.is_dead()) order.push_back(i);
+      }
+    }
+
     // Positions
     //---------------------------------------------------------------------------------------------
-    for (i=0; i<hydro->Nhydro; i++) {
-      Particle<ndim>& part = hydro->GetParticlePointer(i);
-      if (part.flags.is_dead()) continue;
+    for (i=0; i<Nlivehydro; i++) {
+      Particle<ndim>& part = hydro->GetParticlePointer(order[i]);
       for (int k=0; k<ndim; k++) writer.write_value((float) (part.r[k]*simunits.r.outscale));
     }
 
     // Masses
     //---------------------------------------------------------------------------------------------
-    for (i=0; i<hydro->Nhydro; i++) {
-      Particle<ndim>& part = hydro->GetParticlePointer(i);
-      if (part.flags.is_dead()) continue;
+    for (i=0; i<Nlivehydro; i++) {
+      Particle<ndim>& part = hydro->GetParticlePointer(order[i]);
       writer.write_value((float) (part.m*simunits.m.outscale));
     }
 
     // Smoothing lengths
     //---------------------------------------------------------------------------------------------
-    for (i=0; i<hydro->Nhydro; i++) {
-      Particle<ndim>& part = hydro->GetParticlePointer(i);
-      if (part.flags.is_dead()) continue;
+    for (i=0; i<Nlivehydro; i++) {
+      Particle<ndim>& part = hydro->GetParticlePointer(order[i]);
       writer.write_value((float) (part.h*simunits.r.outscale));
     }
 
     // Densities
     //---------------------------------------------------------------------------------------------
-    for (i=0; i<hydro->Nhydro; i++) {
-      Particle<ndim>& part = hydro->GetParticlePointer(i);
-      if (part.flags.is_dead()) continue;
+    for (i=0; i<Nlivehydro; i++) {
+      Particle<ndim>& part = hydro->GetParticlePointer(order[i]);
       writer.write_value((float) (part.rho*simunits.rho.outscale));
     }
 
     // Specific internal energies
     //--------------------------------------------------------------------------------------------
-    for (i=0; i<hydro->Nhydro; i++) {
-      Particle<ndim>& part = hydro->GetParticlePointer(i);
-      if (part.flags.is_dead()) continue;
+    for (i=0; i<Nlivehydro; i++) {
+      Particle<ndim>& part = hydro->GetParticlePointer(order[i]);
       writer.write_value((float) (part.u*simunits.u.outscale));
     }
 
-- 
2.43.0


From ae5197affb32657ec2fc8892ca96a6fc7aff7b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:13 +0000
Subject: [PATCH 076/106] fix: conserved variables of meshless particles were
 not reflected at mirror and wall boundaries

---
 src/Headers/Integration.h         |  1 +
 src/MeshlessFV/MfvIntegration.cpp | 45 +++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/src/Headers/Integration.h b/src/Headers/Integration.h
index 0313092..621637d 100644
--- a/src/Headers/Integration.h
+++ b/src/Headers/Integration.h
@@ -184,6 +184,7 @@ public:
   void AdvanceParticles(const int, const FLOAT, const FLOAT, Hydrodynamics<ndim> *);
   void CorrectionTerms(const int, const FLOAT, const FLOAT, Hydrodynamics<ndim> *){};
   void EndTimestep(const int, const FLOAT, const FLOAT, Hydrodynamics<ndim> *);
+  void CheckBoundaries(DomainBox<ndim> &, Hydrodynamics<ndim> *);
   int CheckTimesteps(const int, const int, const int, const FLOAT, Hydrodynamics<ndim> *);
   DOUBLE Timestep(Particle<ndim> &, Hydrodynamics<ndim> *);
 
diff --git a/src/MeshlessFV/MfvIntegration.cpp b/src/MeshlessFV/MfvIntegration.cpp
index 293df49..3646944 100644
--- a/src/MeshlessFV/MfvIntegration.cpp
+++ b/src/MeshlessFV/MfvIntegration.cpp
@@ -114,6 +114,51 @@ void MfvIntegration<ndim,ParticleType>::AdvanceParticles
 
 
 
+//=================================================================================================
+//  MfvIntegration::CheckBoundaries
+/// Check all particles to see if any have crossed the simulation bounding box. For particles
+/// reflected by a mirror or wall, the conserved variables, fluxes and gradients are also reflected.
+//=================================================================================================
+template <int ndim, template <int> class ParticleType>
+void MfvIntegration<ndim,ParticleType>::CheckBoundaries
+ (DomainBox<ndim>& simbox,             ///< Domain box object
+  Hydrodynamics<ndim>* hydro)          ///< Pointer to hydrodynamics object
+{
+  MeshlessFV<ndim>* mfv = reinterpret_cast<MeshlessFV<ndim>*>(hydro);
+  MeshlessFVParticle<ndim>* partdata = mfv->GetMeshlessFVParticleArray();
+
+  debug2("[MfvIntegration::CheckBoundaries]");
+
+  for (int k=0; k<ndim; k++) {
+    const bool lhs = (simbox.boundary_lhs[k] == mirrorBoundary || simbox.boundary_lhs[k] == wallBoundary);
+    const bool rhs = (simbox.boundary_rhs[k] == mirrorBoundary || simbox.boundary_rhs[k] == wallBoundary);
+    if (!lhs && !rhs) continue;
+
+#pragma omp parallel for default(none) shared(k, mfv, partdata, simbox)
+    for (int i=0; i<mfv->Nhydro; i++) {
+      MeshlessFVParticle<ndim>& part = partdata[i];
+      if (!(lhs && part.r[k] < simbox.min[k]) && !(rhs && part.r[k] > simbox.max[k])) continue;
+
+      part.Wprim[k]  = -part.Wprim[k];
+      part.Qcons0[k] = -part.Qcons0[k];
+      part.dQ[k]     = -part.dQ[k];
+      part.dQdt[k]   = -part.dQdt[k];
+      part.rdmdt[k]  = -part.rdmdt[k];
+      part.rdmdt0[k] = -part.rdmdt0[k];
+      for (int var=0; var<ndim+2; var++) part.grad[var][k] = -part.grad[var][k];
+      for (int kk=0; kk<ndim; kk++) part.grad[k][kk] = -part.grad[k][kk];
+      for (int kk=0; kk<ndim; kk++) part.B[k][kk] = -part.B[k][kk];
+      for (int kk=0; kk<ndim; kk++) part.B[kk][k] = -part.B[kk][k];
+    }
+  }
+
+  TimeIntegration<ndim>::CheckBoundaries(simbox, hydro);
+
+  return;
+}
+
+
+
 //=================================================================================================
 //  MeshlessFV<ndim>::EndTimestep
 /// Calculate or reset all quantities for all particles that reach the end of their timesteps.
-- 
2.43.0


From 22f2ef07e0d559b48b304ea2189a88d1d4bd71d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:14 +0000
Subject: [PATCH 077/106] fix: fluxes of the meshless Runge-Kutta scheme had
 the wrong sign and direction

---
 src/MeshlessFV/MfvRungeKutta.cpp | 37 +++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/MeshlessFV/MfvRungeKutta.cpp b/src/MeshlessFV/MfvRungeKutta.cpp
index 4753401..b6452a1 100644
--- a/src/MeshlessFV/MfvRungeKutta.cpp
+++ b/src/MeshlessFV/MfvRungeKutta.cpp
@@ -70,8 +70,9 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
   int k;                               // Dimension counter
   int var;                             // Particle state vector variable counter
   FLOAT Aij[ndim];                     // Pseudo 'Area' vector
-  FLOAT draux[ndim];                   // Position vector of part relative to neighbour
-  FLOAT dr_unit[ndim];                 // Unit vector from neighbour to part
+  FLOAT Aunit[ndim];                   // Unit vector of pseudo 'Area' vector
+  FLOAT draux[ndim];                   // Position vector of neighbour relative to part
+  FLOAT dr_unit[ndim];                 // Unit vector from part to neighbour
   FLOAT drsqd;                         // Distance squared
   FLOAT invdrmagaux;                   // 1 / distance
   FLOAT psitildai[ndim];               // Normalised gradient psi value for particle i
@@ -82,7 +83,8 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
   FLOAT Wleft[nvar];                   // Primitive vector for LHS of Riemann problem
   FLOAT Wright[nvar];                  // Primitive vector for RHS of Riemann problem
   FLOAT Wdot[nvar];                    // Time derivative of primitive vector
-  FLOAT gradW[nvar][ndim];             // Gradient of primitive vector
+  FLOAT gradWleft[nvar][ndim];         // Gradient of LHS primitive vector
+  FLOAT gradWright[nvar][ndim];        // Gradient of RHS primitive vector
   FLOAT dW[nvar];                      // Change in primitive quantities
   const FLOAT dt = timestep*(FLOAT) part.nstep;    // Timestep of given particle
 
@@ -97,7 +99,7 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
     FLOAT invh_j   = 1/neibpart[j].h;
     FLOAT volume_j = 1/neibpart[j].ndens;
 
-    for (k=0; k<ndim; k++) draux[k] = part.r[k] - neibpart[j].r[k];
+    for (k=0; k<ndim; k++) draux[k] = neibpart[j].r[k] - part.r[k];
     drsqd = DotProduct(draux, draux, ndim);
     invdrmagaux = 1.0/sqrt(drsqd + small_number);
     for (k=0; k<ndim; k++) dr_unit[k] = draux[k]*invdrmagaux;
@@ -135,6 +137,11 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
     for (k=0; k<ndim; k++)
       Aij[k] = volume_i*psitildaj[k] - volume_j*psitildai[k];
 
+    // Skip pair if there is no face area to pass flux across.
+    FLOAT Amag = sqrt(DotProduct(Aij, Aij, ndim));
+    if (!(Amag > (FLOAT) 0.0)) continue;
+    for (k=0; k<ndim; k++) Aunit[k] = Aij[k] / Amag;
+
     // Calculate position and velocity of the face
     if (staticParticles) {
       for (k=0; k<ndim; k++) rface[k] = (FLOAT) 0.5*(part.r[k] + neibpart[j].r[k]);
@@ -144,20 +151,20 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
       for (k=0; k<ndim; k++) rface[k] = (FLOAT) 0.5*(part.r[k] + neibpart[j].r[k]);
       //for (k=0; k<ndim; k++) rface[k] = part.r[k] +
       //  part.h*(neibpart[j].r[k] - part.r[k])/(part.h + neibpart[j].h);
-      for (k=0; k<ndim; k++) draux[k] = part.r[k] - rface[k];
+      for (k=0; k<ndim; k++) draux[k] = rface[k] - part.r[k];
       for (k=0; k<ndim; k++) vface[k] = part.v[k] +
         (neibpart[j].v[k] - part.v[k])*DotProduct(draux, dr_unit, ndim)*invdrmagaux;
     }
 
     // Compute slope-limited values for LHS
     for (k=0; k<ndim; k++) draux[k] = rface[k] - part.r[k];
-    limiter.ComputeLimitedSlopes(part, neibpart[j], draux, gradW, dW);
+    limiter.ComputeLimitedSlopes(part, neibpart[j], draux, gradWleft, dW);
     for (var=0; var<nvar; var++) Wleft[var] = part.Wprim[var] + dW[var];
     for (k=0; k<ndim; k++) Wleft[k] -= vface[k];
 
     // Compute slope-limited values for RHS
     for (k=0; k<ndim; k++) draux[k] = rface[k] - neibpart[j].r[k];
-    limiter.ComputeLimitedSlopes(neibpart[j], part, draux, gradW, dW);
+    limiter.ComputeLimitedSlopes(neibpart[j], part, draux, gradWright, dW);
     for (var=0; var<nvar; var++) Wright[var] = neibpart[j].Wprim[var] + dW[var];
     for (k=0; k<ndim; k++) Wright[k] -= vface[k];
 
@@ -168,9 +175,9 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
 
     // Calculate Godunov flux using the selected Riemann solver
     if (RiemannSolverType == exact)
-      riemannExact.ComputeFluxes(Wright, Wleft, dr_unit, vface, flux);
+      riemannExact.ComputeFluxes(Wleft, Wright, Aunit, vface, flux);
     else
-      riemannHLLC.ComputeFluxes(Wright, Wleft, dr_unit, vface, flux);
+      riemannHLLC.ComputeFluxes(Wleft, Wright, Aunit, vface, flux);
 
     // Finally calculate flux terms for all quantities based on Lanson & Vila gradient operators
     for (var=0; var<nvar; var++) {
@@ -178,13 +185,13 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
       neibpart[j].dQ[var] += 0.5*DotProduct(flux[var], Aij, ndim)*dt;
     }
 
-    // Time-integrate LHS state to half-timestep value
-    this->CalculatePrimitiveTimeDerivative(Wleft, gradW, part.sound, Wdot);
+    // Time-integrate LHS state to the end of the timestep
+    this->CalculatePrimitiveTimeDerivative(Wleft, gradWleft, part.sound, Wdot);
     for (k=0; k<ndim; k++) Wdot[k] += part.a[k];
     for (var=0; var<nvar; var++) Wleft[var] += (FLOAT) Wdot[var]*dt;
 
-    // Time-integrate RHS state to half-timestep value
-    this->CalculatePrimitiveTimeDerivative(Wright, gradW, neibpart[j].sound, Wdot);
+    // Time-integrate RHS state to the end of the timestep
+    this->CalculatePrimitiveTimeDerivative(Wright, gradWright, neibpart[j].sound, Wdot);
     for (k=0; k<ndim; k++) Wdot[k] += neibpart[j].a[k];
     for (var=0; var<nvar; var++) Wright[var] += (FLOAT) Wdot[var]*dt;
 
@@ -195,9 +202,9 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
 
     // Calculate Godunov flux using the selected Riemann solver
     if (RiemannSolverType == exact)
-      riemannExact.ComputeFluxes(Wright, Wleft, dr_unit, vface, flux);
+      riemannExact.ComputeFluxes(Wleft, Wright, Aunit, vface, flux);
     else
-      riemannHLLC.ComputeFluxes(Wright, Wleft, dr_unit, vface, flux);
+      riemannHLLC.ComputeFluxes(Wleft, Wright, Aunit, vface, flux);
 
     // Finally calculate flux terms for all quantities based on Lanson & Vila gradient operators
     for (var=0; var<nvar; var++) {
-- 
2.43.0


From 2e45e28ff9f94176b5c1bd9a4b96b5dec66c41a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:43 +0000
Subject: [PATCH 078/106] fix: second stage of the meshless Runge-Kutta scheme
 used the moved face velocity

---
 src/MeshlessFV/MfvRungeKutta.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MeshlessFV/MfvRungeKutta.cpp b/src/MeshlessFV/MfvRungeKutta.cpp
index b6452a1..e87b300 100644
--- a/src/MeshlessFV/MfvRungeKutta.cpp
+++ b/src/MeshlessFV/MfvRungeKutta.cpp
@@ -79,6 +79,7 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
   FLOAT psitildaj[ndim];               // Normalised gradient psi value for neighbour j
   FLOAT rface[ndim];                   // Position of working face (to compute Godunov fluxes)
   FLOAT vface[ndim];                   // Velocity of working face (to compute Godunov fluxes)
+  FLOAT vface0[ndim];                  // Velocity of the frame of the left and right states
   FLOAT flux[nvar][ndim];              // Flux tensor
   FLOAT Wleft[nvar];                   // Primitive vector for LHS of Riemann problem
   FLOAT Wright[nvar];                  // Primitive vector for RHS of Riemann problem
@@ -156,6 +157,9 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
         (neibpart[j].v[k] - part.v[k])*DotProduct(draux, dr_unit, ndim)*invdrmagaux;
     }
 
+    // The Riemann solvers move the face for zero mass flux, so keep the frame of both states
+    for (k=0; k<ndim; k++) vface0[k] = vface[k];
+
     // Compute slope-limited values for LHS
     for (k=0; k<ndim; k++) draux[k] = rface[k] - part.r[k];
     limiter.ComputeLimitedSlopes(part, neibpart[j], draux, gradWleft, dW);
@@ -200,6 +204,8 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
     assert(Wright[irho] > 0.0);
     assert(Wright[ipress] > 0.0);
 
+    for (k=0; k<ndim; k++) vface[k] = vface0[k];
+
     // Calculate Godunov flux using the selected Riemann solver
     if (RiemannSolverType == exact)
       riemannExact.ComputeFluxes(Wleft, Wright, Aunit, vface, flux);
-- 
2.43.0


From ade45ca8830fd2efed745b1c9abfa36ea2f32206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:21 +0000
Subject: [PATCH 079/106] fix: Hermite timestep of stars without jerk was the
 square of a time

---
 src/Nbody/NbodyHermite4.cpp   | 2 +-
 src/Nbody/NbodyHermite6TS.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Nbody/NbodyHermite4.cpp b/src/Nbody/NbodyHermite4.cpp
index f7959bf..9502cf9 100644
--- a/src/Nbody/NbodyHermite4.cpp
+++ b/src/Nbody/NbodyHermite4.cpp
@@ -561,7 +561,7 @@ DOUBLE NbodyHermite4<ndim, kernelclass>::Timestep
   }
   // Special case when 1st derivative falls to zero
   else if (asqd > small_number_dp && a2sqd > small_number_dp) {
-    timestep = asqd/(a2sqd + small_number_dp);
+    timestep = sqrt(asqd/(a2sqd + small_number_dp));
     timestep = nbody_mult*sqrt(timestep);
   }
   // If all else fails, use simple criterion
diff --git a/src/Nbody/NbodyHermite6TS.cpp b/src/Nbody/NbodyHermite6TS.cpp
index eb2a05e..77aaf7f 100644
--- a/src/Nbody/NbodyHermite6TS.cpp
+++ b/src/Nbody/NbodyHermite6TS.cpp
@@ -686,7 +686,7 @@ DOUBLE NbodyHermite6TS<ndim, kernelclass>::Timestep
   }
   // Special case when 1st derivative falls to zero
   else if (asqd > small_number_dp && a2sqd > small_number_dp) {
-    timestep = asqd/(a2sqd + small_number_dp);
+    timestep = sqrt(asqd/(a2sqd + small_number_dp));
     timestep = nbody_mult*sqrt(timestep);
   }
   // If all else fails, use simple criterion
-- 
2.43.0


From 3758723b3f353350ed024013a62a45e0d91d93e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:22 +0000
Subject: [PATCH 080/106] fix: lite snapshots were returned as regular
 snapshots to interactive runs

---
 src/Common/Simulation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index e7b8c12..dc7523f 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -502,8 +502,8 @@ list<SphSnapshotBase*> SimulationBase::InteractiveRun
 //=================================================================================================
 string SimulationBase::Output(void)
 {
-  string filename;                  // 'Lite' output snapshot filename
-  string filename2;                 // Regular output snapshot filename
+  string filename;                  // Regular output snapshot filename
+  string filename2;                 // 'Lite' output snapshot and restart log filename
   string nostring;                  // String of number of snapshots
   string fileend;                   // Name of restart file
   stringstream ss;                  // Stream object for preparing filename
@@ -534,9 +534,9 @@ string SimulationBase::Output(void)
     nostring = "";
     ss << setfill('0') << setw(5) << Noutlitesnap;
     nostring = ss.str();
-    filename = run_id + ".slite." + nostring;
+    filename2 = run_id + ".slite." + nostring;
     ss.str(std::string());
-    WriteSnapshotFile(filename,"slite");
+    WriteSnapshotFile(filename2,"slite");
 
   }
   //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From de88820d0d9b626bef5b9b9b6419d30e91163426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:13 +0000
Subject: [PATCH 081/106] fix: runs resumed from a restart dump taken before
 the first snapshot forgot tsnapfirst

---
 src/Common/Simulation.cpp   | 2 ++
 src/Common/SimulationIO.hpp | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index dc7523f..645a0e4 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -1231,6 +1231,8 @@ void Simulation<ndim>::ProcessParameters(void)
   tend                = floatparams["tend"]/simunits.t.outscale;
   tlitesnapnext       = floatparams["tlitesnapfirst"]/simunits.t.outscale;
   tsnapnext           = floatparams["tsnapfirst"]/simunits.t.outscale;
+  tlitesnaplast       = tlitesnapnext - dt_litesnap;
+  tsnaplast           = tsnapnext - dt_snap;
 
 }
 
diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index a94d7fd..e5c1270 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -2568,10 +2568,10 @@ void Simulation<ndim>::ConvertToCodeUnits(void)
 
   // Rescale other variables
   t             /= simunits.t.inscale;
-  tsnaplast     /= simunits.t.inscale;
-  tlitesnaplast /= simunits.t.inscale;
   hydro->mmean  /= simunits.m.inscale;
   if (restart) {
+    tsnaplast     /= simunits.t.inscale;
+    tlitesnaplast /= simunits.t.inscale;
     tsnapnext = tsnaplast + dt_snap;
     tlitesnapnext = tlitesnaplast + dt_litesnap;
   }
-- 
2.43.0


From f9a07d359999fe0e90df4e3c84d80439f1a2f273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 082/106] fix: resumed N-body runs numbered snapshots from one
 again, overwriting earlier ones

---
 src/Nbody/NbodySimulation.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Nbody/NbodySimulation.cpp b/src/Nbody/NbodySimulation.cpp
index 26b7332..8f44fa2 100644
--- a/src/Nbody/NbodySimulation.cpp
+++ b/src/Nbody/NbodySimulation.cpp
@@ -188,7 +188,6 @@ void NbodySimulation<ndim>::PostInitialConditionsSetup(void)
   debug2("[NbodySimulation::PostInitialConditionsSetup]");
 
   // Set time variables here (for now)
-  Noutsnap = 0;
   nresync = 0;
   //tsnapnext = dt_snap;
 
-- 
2.43.0


From a64672b2c3f89ba060a705b438c275522f0ccee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:55 +0000
Subject: [PATCH 083/106] fix: binary statistics never finished for stars more
 than 3e10 code units apart

---
 src/Nbody/NbodySystemTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nbody/NbodySystemTree.cpp b/src/Nbody/NbodySystemTree.cpp
index c4688b1..2cebdd7 100644
--- a/src/Nbody/NbodySystemTree.cpp
+++ b/src/Nbody/NbodySystemTree.cpp
@@ -182,7 +182,7 @@ void NbodySystemTree<ndim>::CreateNbodySystemTree
     for (ii=0; ii<Nfreenode; ii++) {
       i = nodelist[ii];
       NNtree[i].inearest = -1;
-      NNtree[i].rsqdnearest = big_number;
+      NNtree[i].rsqdnearest = big_number_dp;
 
       for (jj=0; jj<Nfreenode; jj++) {
         j = nodelist[jj];
-- 
2.43.0


From 257d8c41a6f16f6d29ab37e1ce9ab0dc85d59943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:09 +0000
Subject: [PATCH 084/106] fix: timestep limiter of the drift-kick-drift scheme
 ended steps at times that do not fit the block hierarchy

---
 src/Hydrodynamics/SphLeapfrogDKD.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Hydrodynamics/SphLeapfrogDKD.cpp b/src/Hydrodynamics/SphLeapfrogDKD.cpp
index 5375fec..62de426 100644
--- a/src/Hydrodynamics/SphLeapfrogDKD.cpp
+++ b/src/Hydrodynamics/SphLeapfrogDKD.cpp
@@ -255,11 +255,13 @@ int SphLeapfrogDKD<ndim, ParticleType>::CheckTimesteps
       level_new = part.levelneib - level_diff_max;
       nnewstep = pow(2,level_step - level_new);
 
-      // If new level is correctly synchronised at the half-step of the
-      // new-step (where acceleration is computed), then change all quantities
-      if ((2*dn)%nnewstep == 0) {
-        if (dn > 0) part.nstep = dn;
-        part.level = level_new;
+      // If the current time is the half-step (where the acceleration is computed) of a shorter
+      // step begun at the same time, then change all quantities
+      if (2*dn < part.nstep && isPowerOfTwo(dn) && (2*dn)%nnewstep == 0) {
+        while (part.nstep > 2*dn) {
+          part.nstep /= 2;
+          part.level++;
+        }
         part.flags.set(active);
         activecount++;
       }
-- 
2.43.0


From 1d4dc3378a327fb6fd3b2bf5c6bd1395e8c87644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:27 +0000
Subject: [PATCH 085/106] fix: images of particles lagged behind in Runge-Kutta
 meshless runs with ntreebuildstep > 1

---
 src/MeshlessFV/MfvRungeKuttaSimulation.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/MeshlessFV/MfvRungeKuttaSimulation.cpp b/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
index 37a97db..738fd81 100644
--- a/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
+++ b/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
@@ -188,13 +188,11 @@ void MfvRungeKuttaSimulation<ndim>::MainLoop(void)
   // Rebuild or update local neighbour and gravity tree
   mfvneib->BuildTree(rebuild_tree, Nsteps, ntreebuildstep, ntreestockstep, timestep, mfv);
 
-  // Search for new ghost particles and create on local processor
-  if (Nsteps%ntreebuildstep == 0 || rebuild_tree) {
-    tghost = timestep*(FLOAT) (ntreebuildstep - 1);
-    mfvneib->SearchBoundaryGhostParticles(tghost, simbox, mfv);
-    LocalGhosts->CopyHydroDataToGhosts(simbox,mfv);
-    mfvneib->BuildGhostTree(rebuild_tree, Nsteps, ntreebuildstep, ntreestockstep, timestep, mfv);
-  }
+  // Search for new ghost particles and create on local processor (every step, since
+  // the images must move with their parents for the densities computed below)
+  tghost = 0;
+  mfvneib->SearchBoundaryGhostParticles(tghost, simbox, mfv);
+  mfvneib->BuildGhostTree(true, Nsteps, ntreebuildstep, ntreestockstep, timestep, mfv);
 
   // Update all active cell counters in the tree
   mfvneib->UpdateActiveParticleCounters(mfv);
-- 
2.43.0


From 83faaf5819f7d7cc4d066afc2a7901d7ace81263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:00 +0000
Subject: [PATCH 086/106] fix: a single search could create more sinks than
 Nsinkfixed

---
 src/Nbody/Sinks.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index fcd4847..a1b9d5b 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -270,7 +270,7 @@ void Sinks<ndim>::SearchForNewSinkParticles
       Nsink++;
     }
 
-  } while (isink != -1);
+  } while (isink != -1 && (Nsinkfixed == -1 || Nsink < Nsinkfixed));
   //===============================================================================================
 
 
-- 
2.43.0


From f2219e7ef4abb363bdb8ab3330d621d3b58a87e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:36 +0000
Subject: [PATCH 087/106] fix: mass accreted from meshless particles in the
 middle of their step came back

---
 src/Headers/MeshlessFV.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Headers/MeshlessFV.h b/src/Headers/MeshlessFV.h
index e0933fe..7cc9f7e 100644
--- a/src/Headers/MeshlessFV.h
+++ b/src/Headers/MeshlessFV.h
@@ -111,10 +111,18 @@ public:
   }
   virtual void AccreteMassFromParticle(const FLOAT dm, Particle<ndim> &part) {
     MeshlessFVParticle<ndim>& mfvpart = static_cast<MeshlessFVParticle<ndim>& > (part);
+
+    // Remove the same fraction of all conserved quantities, both those held at the beginning of
+    // the step and those accumulated since, so that particles in the middle of their step do not
+    // regain the mass and the remaining mass keeps its velocity and specific energy.
+    const FLOAT frac = (FLOAT) 1.0 - dm/mfvpart.m;
     mfvpart.m -= dm;
-    mfvpart.dQ[irho] -= dm;
-    //mfvpart.dQ[ietot] -= dm*part.u;
-    for (int k=0; k<ndim; k++) mfvpart.dQ[k] -= dm*mfvpart.v[k];
+    for (int var=0; var<nvar; var++) {
+      mfvpart.Qcons0[var] *= frac;
+      mfvpart.dQ[var]     *= frac;
+      mfvpart.dQdt[var]   *= frac;
+    }
+    mfvpart.cooling *= frac;
   }
 
   virtual void ZeroAccelerations();
-- 
2.43.0


From a80c7efb57c2ee4b15da0c73b1afa517b05e2ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:20 +0000
Subject: [PATCH 088/106] fix: MeshlessFV: find the potential minima again once
 the potential is known during setup, so the first sinks form only there

---
 src/MeshlessFV/MeshlessFVSimulation.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/MeshlessFV/MeshlessFVSimulation.cpp b/src/MeshlessFV/MeshlessFVSimulation.cpp
index cd41831..54d2e6d 100644
--- a/src/MeshlessFV/MeshlessFVSimulation.cpp
+++ b/src/MeshlessFV/MeshlessFVSimulation.cpp
@@ -678,13 +678,14 @@ void MeshlessFVSimulation<ndim>::PostInitialConditionsSetup(void)
 #endif
     }
 
-    /*
-    mfvneib->UpdateGradientMatrices(mfv, nbody, simbox);
-    LocalGhosts->CopyHydroDataToGhosts(simbox,mfv);
+    // Search for the minima of the potential again, now that the potential is known
+    if (mfv->self_gravity == 1 && mfv->create_sinks == 1) {
+      LocalGhosts->CopyHydroDataToGhosts(simbox,mfv);
 #ifdef MPI_PARALLEL
-    MpiGhosts->CopyHydroDataToGhosts(simbox,mfv);
+      MpiGhosts->CopyHydroDataToGhosts(simbox,mfv);
 #endif
-     */
+      mfvneib->UpdateGradientMatrices(mfv, nbody, simbox);
+    }
   } // End of force iteration.
 
   // ..
-- 
2.43.0


From ad11d556d29c1ebf6300993669895cbe6abae682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:17 +0000
Subject: [PATCH 089/106] fix: do not count the first guess of the drag heating
 twice at the start of SPH dust runs

---
 src/Hydrodynamics/SphSimulation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Hydrodynamics/SphSimulation.cpp b/src/Hydrodynamics/SphSimulation.cpp
index 0f6b149..d2838e4 100644
--- a/src/Hydrodynamics/SphSimulation.cpp
+++ b/src/Hydrodynamics/SphSimulation.cpp
@@ -521,6 +521,7 @@ void SphSimulation<ndim>::PostInitialConditionsSetup(void)
     for (i=0; i<sph->Nhydro; i++) {
       SphParticle<ndim>& part = sph->GetSphParticlePointer(i);
       part.flags.set(active);
+      part.dudt0 = part.dudt;
     }
 
     // Copy properties from original particles to ghost particles
@@ -541,10 +542,11 @@ void SphSimulation<ndim>::PostInitialConditionsSetup(void)
   // Compute the time-averaged initial dust forces.
   if (sphdust != NULL){
 
-    // Set the acceleration to the pre-drag value
+    // Set the acceleration and heating rate to the pre-drag value
     for (i=0; i<sph->Nhydro; i++) {
       SphParticle<ndim>& part = sph->GetSphParticlePointer(i);
       for (k=0; k <ndim; k++) part.a[k] = part.a0[k] ;
+      part.dudt = part.dudt0;
     }
 
     sphdust->UpdateAllDragForces(sph) ;
-- 
2.43.0


From 35948aa2bea894c30754c07db52182fc3fb9b657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:39 +0000
Subject: [PATCH 090/106] fix: dust outside the kernels of all its gas
 neighbours gave them an undefined drag heating

---
 src/Common/Dust.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Common/Dust.cpp b/src/Common/Dust.cpp
index b0f7207..df5ade3 100644
--- a/src/Common/Dust.cpp
+++ b/src/Common/Dust.cpp
@@ -1115,6 +1115,9 @@ void DustSemiImplictForces<ndim, ParticleType, StoppingTime, Kernel>::ComputeDra
     }
 
     if (parti.ptype == dust_type) {
+      // No gas particle within whose kernel the dust lies (and hence no drag)
+      if (norm == 0) return;
+
       // Spread the change in energy for the dust amongst its gas neighbours.
       for (j=0; j < Nneib; j++) {
         FLOAT invh_j =  1/neiblist[j].h ;
-- 
2.43.0


From 60acb0f3f63063fdbe9c9cfa80aa19415d9a8c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:24 +0000
Subject: [PATCH 091/106] fix: velocity change of meshless particles under drag
 is the momentum change divided by the mass

---
 src/Common/Dust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/Dust.cpp b/src/Common/Dust.cpp
index df5ade3..332cb9f 100644
--- a/src/Common/Dust.cpp
+++ b/src/Common/Dust.cpp
@@ -126,7 +126,7 @@ void update_particle(MeshlessFVParticle<ndim>& part, FLOAT* acc, FLOAT dudt, dou
 
   // Update the particle position according to the drag terms.
   for(int k=0; k<ndim; k++) {
-    part.v[k] = part.v0[k] + part.dQ[k] + part.a0[k]*dt ;
+    part.v[k] = part.v0[k] + part.dQ[k]/part.m + part.a0[k]*dt ;
     part.r[k] = part.r0[k] + 0.5*(part.v0[k] + part.v[k])*dt;
     part.flags.set(update_density) ;
   }
-- 
2.43.0


From ded14f9f85b2b7f2816a7d3faca5eb99685dee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:43 +0000
Subject: [PATCH 092/106] fix: dust drag interpolation tested the wrong
 particle for being dead and then misread the neighbour list

---
 src/Common/Dust.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/Common/Dust.cpp b/src/Common/Dust.cpp
index 332cb9f..9d1986b 100644
--- a/src/Common/Dust.cpp
+++ b/src/Common/Dust.cpp
@@ -509,20 +509,19 @@ void DustSphNgbFinder<ndim, ParticleType>::FindNeibAndDoInterp
         }  while (Nneib < 0) ;
 
         // Make local copies of important neib information (mass and position)
+        int Nlive = 0;
         for (jj=0; jj<Nneib; jj++) {
-          if (sphdata[j].flags.is_dead()){
-        	Nneib-- ;
-        	continue ;
-          }
-
-          j        = neiblist[jj];
+          j = neiblist[jj];
+          if (sphdata[j].flags.is_dead()) continue;
 
-          m[jj]     = sphdata[j].m;
-          ptype[jj] = sphdata[j].ptype;
-          for (k=0; k<ndim; k++) pos[ndim*jj + k] = sphdata[j].r[k];
+          m[Nlive]     = sphdata[j].m;
+          ptype[Nlive] = sphdata[j].ptype;
+          for (k=0; k<ndim; k++) pos[ndim*Nlive + k] = sphdata[j].r[k];
 
-          data[jj] = InterpData(sphdata[j]) ;
+          data[Nlive] = InterpData(sphdata[j]) ;
+          Nlive++;
         }
+        Nneib = Nlive;
 
         // Loop over all active particles in the cell
         //-----------------------------------------------------------------------------------------
-- 
2.43.0


From bbf6d1a7d997c8078855bac2ad2ad7dd34921841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:43 +0000
Subject: [PATCH 093/106] fix: dust read the equation of state from a parameter
 that does not exist

---
 src/Common/Dust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/Dust.cpp b/src/Common/Dust.cpp
index 9d1986b..7b8c32a 100644
--- a/src/Common/Dust.cpp
+++ b/src/Common/Dust.cpp
@@ -1189,7 +1189,7 @@ DustBase<ndim>* ProcessParameters(Parameters* simparams, ParticleTypeRegister& t
 	  typedef DustFull<ndim, ParticleType, StoppingTime, Kernel> dust ;
 
 	  StoppingTime t_s(K_D) ; Kernel kern(KernelName) ;
-	  bool IntegrateEnergy = stringparams["eos"] != "isothermal" ;
+	  bool IntegrateEnergy = stringparams["gas_eos"] != "isothermal" ;
 
 	  typename dust::DF Forces(t_s, kern, IntegrateEnergy) ;
 	  DustSphNgbFinder<ndim, ParticleType>* d =  new dust(simparams, Forces, types, t, ghost) ;
-- 
2.43.0


From 0fbfe72879d5213e5e8c1a49c841a259aed581dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:33 +0000
Subject: [PATCH 094/106] fix: range queries wrote in front of the neighbour
 list after the first tree had overflowed it

---
 src/Tree/Tree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Tree/Tree.cpp b/src/Tree/Tree.cpp
index 6796d3b..77a00fc 100644
--- a/src/Tree/Tree.cpp
+++ b/src/Tree/Tree.cpp
@@ -224,6 +224,8 @@ int Tree<ndim,ParticleType,TreeCell>::ComputeGatherNeighbourList
   assert(partdata != NULL);
   assert(neiblist != NULL);
 
+  // Exit immediately if we have overflowed the neighbour list buffer
+  if (Nneib == -1) return -1;
 
   //===============================================================================================
   while (cc < Ncell) {
-- 
2.43.0


From f6413832112dbc743cf856c9c09549341af56d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:33 +0000
Subject: [PATCH 095/106] fix: brute-force tree had no quadrupole moments in
 one dimension

---
 src/Tree/BruteForceTree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Tree/BruteForceTree.cpp b/src/Tree/BruteForceTree.cpp
index 1f97d05..2bd9ced 100644
--- a/src/Tree/BruteForceTree.cpp
+++ b/src/Tree/BruteForceTree.cpp
@@ -456,6 +456,9 @@ void BruteForceTree<ndim,ParticleType,TreeCell>::StockTreeProperties
 		  cell.q[1] += mi*(FLOAT) 3.0*dr[0]*dr[1];
 		  cell.q[2] += mi*((FLOAT) 3.0*dr[1]*dr[1] - drsqd);
 		}
+		else if (ndim == 1) {
+		  cell.q[0] += mi*((FLOAT) 3.0*dr[0]*dr[0] - drsqd);
+		}
 	  }
 	  if (i == cell.ilast) break;
 	  i = inext[i];
-- 
2.43.0


From 091508d2b305944ee77b618560ac130617629945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:15 +0000
Subject: [PATCH 096/106] fix: images of fast particles were missed when their
 cell moves slowly

---
 src/Tree/Tree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Tree/Tree.cpp b/src/Tree/Tree.cpp
index 77a00fc..c0ccb4a 100644
--- a/src/Tree/Tree.cpp
+++ b/src/Tree/Tree.cpp
@@ -1113,9 +1113,9 @@ void Tree<ndim,ParticleType,TreeCell>::GenerateBoundaryGhostParticles
 
     // If x-bounding box overlaps edge of x-domain, open cell
     //-------------------------------------------------------------------------------------------
-    if (cellptr->bb.min[j] + min((FLOAT) 0.0,cellptr->v[j]*tghost) <
+    if (cellptr->bb.min[j] + min((FLOAT) 0.0,cellptr->vbox.min[j]*tghost) <
         simbox.min[j] + ghost_range*cellptr->hmax ||
-        cellptr->bb.max[j] + max((FLOAT) 0.0,cellptr->v[j]*tghost) >
+        cellptr->bb.max[j] + max((FLOAT) 0.0,cellptr->vbox.max[j]*tghost) >
         simbox.max[j] - ghost_range*cellptr->hmax) {
 
       // If not a leaf-cell, then open cell to first child cell
-- 
2.43.0


From a424e287feb5468b1bf4f0b0ca4caa306013fb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:17 +0000
Subject: [PATCH 097/106] fix: Ewald series of boxes periodic in y-z or x-z
 used the mode limits of the other direction

---
 src/Common/Ewald.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/Common/Ewald.cpp b/src/Common/Ewald.cpp
index d3c941c..e177fdc 100644
--- a/src/Common/Ewald.cpp
+++ b/src/Common/Ewald.cpp
@@ -226,7 +226,7 @@ Ewald<ndim>::Ewald(DomainBox<ndim> &simbox, int _gr_bhewaldseriesn, int _in, int
         es_nfx = 0;
         es_nfz = (int) (1+(gr_bhewaldseriesn)*ratio_p);
         cr3 = pow(ratio_p,2);
-        cf3 = 1.0/cr1;
+        cf3 = 1.0/cr3;
         Lewald[0] = 4*simbox.half[1];
         Ncells[0] = 4*(nEwaldGrid - 2)+1;
         break;
@@ -370,23 +370,23 @@ Ewald<ndim>::Ewald(DomainBox<ndim> &simbox, int _gr_bhewaldseriesn, int _in, int
                   }
                   else if (ewald_periodicity == 5) {
                     ewald_field[ewald_index] +=
-                      PotLong2p1i(ewald_dzeta, linv, ratio_pinv, z, x, y, hi, hk, ewc1, ewc2);
+                      PotLong2p1i(ewald_dzeta, linv, ratio_pinv, z, x, y, hk, hi, ewc1, ewc2);
                     ewald_field[ewald_index + one_component] +=
-                      hk*ratio_pinv*(AccLong2p1iPer(ewald_dzeta, linv, ratio_pinv, z, x, y, hi, hk, ewc1, ewc2));
+                      hi*ratio_pinv*(AccLong2p1iPer(ewald_dzeta, linv, ratio_pinv, z, x, y, hk, hi, ewc1, ewc2));
                     ewald_field[ewald_index + 2*one_component] +=
-                      AccLong2p1iIso(ewald_dzeta, linv, ratio_pinv, z, x, y, hi, hk, ewc1, ewc2);
+                      AccLong2p1iIso(ewald_dzeta, linv, ratio_pinv, z, x, y, hk, hi, ewc1, ewc2);
                     ewald_field[ewald_index + 3*one_component] +=
-                      hi*(AccLong2p1iPer(ewald_dzeta, linv, ratio_pinv, z, x, y, hi, hk, ewc1, ewc2));
+                      hk*(AccLong2p1iPer(ewald_dzeta, linv, ratio_pinv, z, x, y, hk, hi, ewc1, ewc2));
                   }
                   else if (ewald_periodicity == 6) {
                     ewald_field[ewald_index] +=
-                      PotLong2p1i(ewald_dzeta, linv,ratio_pinv, y, z, x, hk, hj, ewc1, ewc2);
+                      PotLong2p1i(ewald_dzeta, linv,ratio_pinv, y, z, x, hj, hk, ewc1, ewc2);
                     ewald_field[ewald_index + one_component] +=
-                      AccLong2p1iIso(ewald_dzeta, linv, ratio_pinv, y, z, x, hk, hj, ewc1, ewc2);
+                      AccLong2p1iIso(ewald_dzeta, linv, ratio_pinv, y, z, x, hj, hk, ewc1, ewc2);
                     ewald_field[ewald_index + 2*one_component] +=
-                      hk*(AccLong2p1iPer(ewald_dzeta, linv, ratio_pinv, y, z, x, hk, hj, ewc1, ewc2));
+                      hj*(AccLong2p1iPer(ewald_dzeta, linv, ratio_pinv, y, z, x, hj, hk, ewc1, ewc2));
                     ewald_field[ewald_index + 3*one_component] +=
-                      hj*ratio_pinv*(AccLong2p1iPer(ewald_dzeta, linv, ratio_pinv, y, z, x, hk, hj, ewc1, ewc2));
+                      hk*ratio_pinv*(AccLong2p1iPer(ewald_dzeta, linv, ratio_pinv, y, z, x, hj, hk, ewc1, ewc2));
                   }
                   else if (ewald_periodicity == 7) {
                     if ((pow(hi,2)+pow(hj,2)+pow(hk,2)) > 0) {
-- 
2.43.0


From 27823756aa8dc1f76838e43449ae57222e148b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:28 +0000
Subject: [PATCH 098/106] fix: Ewald correction of the potential was not
 interpolated and wrong near the origin

---
 src/Common/Ewald.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/Common/Ewald.cpp b/src/Common/Ewald.cpp
index e177fdc..590e634 100644
--- a/src/Common/Ewald.cpp
+++ b/src/Common/Ewald.cpp
@@ -314,6 +314,12 @@ Ewald<ndim>::Ewald(DomainBox<ndim> &simbox, int _gr_bhewaldseriesn, int _in, int
                   rni     = sqrt(rni2);
                   nterms++;
 
+                  // Closest image at the origin : limit of (erfc(alpha*r) - 1)/r; no acceleration
+                  if (rni2 == 0.0) {
+                    ewald_field[ewald_index] -= 2.0*ewald_alpha/sqrt(pi);
+                    continue;
+                  }
+
                   ewald_field[ewald_index] = ewald_field[ewald_index] + erfc(ewald_alpha*rni)/rni;
 
                   for (jj=1; jj<4; jj++) {
@@ -408,8 +414,10 @@ Ewald<ndim>::Ewald(DomainBox<ndim> &simbox, int _gr_bhewaldseriesn, int _in, int
           // End of the loop over whole grid
 
           // subtract the 1/r term from potential and 1/r**2 from acceleration
+          // (already done for the origin, where the difference has a finite limit)
           rni = sqrt(pow(x,2)+pow(y,2)+pow(z,2));
           assert(ewald_index + 3*one_component < 4*one_component);
+          if (rni == 0.0) continue;
           ewald_field[ewald_index] -= 1.0/rni;
           ewald_field[ewald_index + one_component] -= x/pow(rni,3);
           ewald_field[ewald_index + 2*one_component] -= y/pow(rni,3);
@@ -418,12 +426,11 @@ Ewald<ndim>::Ewald(DomainBox<ndim> &simbox, int _gr_bhewaldseriesn, int _in, int
       }
     }
 
-    // omit NaN caused by 1/0 at the origin
-    ewald_field[0] = 0.0;
+    // no acceleration at the origin
     ewald_field[one_component] = 0.0;
     ewald_field[2*one_component] = 0.0;
     ewald_field[3*one_component] = 0.0;
-    assert(ewald_field[0] == 0.0 && ewald_field[one_component] == 0.0 &&
+    assert(ewald_field[one_component] == 0.0 &&
            ewald_field[2*one_component] == 0 && ewald_field[3*one_component] == 0);
 
     // write the Ewald field into file
@@ -651,7 +658,7 @@ void Ewald<ndim>::CalculatePeriodicCorrection
         wf[6]*ewald_field[indexBase3 + Ngrid[0]] + wf[7] * ewald_field[indexBase3 + Ngrid[0] + 1];
     }
 
-    gpotcorr += m*ewald_field[indexBase0];
+    gpotcorr += m*grEwald[0];
     for (k=0; k<ndim; k++) {
       acorr[k] += m*grEwald[k+1]*sgn(dr[k]);
     }
-- 
2.43.0


From 4245240f3f2a40ad61e5534b8b04ee9aa86c03ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:28 +0000
Subject: [PATCH 099/106] fix: Ewald correction wrapped separations along the
 isolated directions of partly periodic boxes

---
 src/Common/Ewald.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Common/Ewald.cpp b/src/Common/Ewald.cpp
index 590e634..3857ccc 100644
--- a/src/Common/Ewald.cpp
+++ b/src/Common/Ewald.cpp
@@ -530,7 +530,13 @@ void Ewald<ndim>::CalculatePeriodicCorrection
 
     // Correct the distance and pre-computed force if position used wasn't the nearest periodic
     // distance
-    if (fabs(dr[0]) > 0.5*lx_per || fabs(dr[1]) > 0.5*ly_per || fabs(dr[2]) > 0.5*lz_per) {
+    // (only along the periodic directions, the others have no replicas)
+    const double size[3] = { 0.5*lx_per, 0.5*ly_per, 0.5*lz_per };
+    bool nearest = true;
+    for (k=0; k<ndim; k++) {
+      if ((ewald_periodicity & (1 << k)) && fabs(dr[k]) > size[k]) nearest = false;
+    }
+    if (!nearest) {
       // Subract off the old force:
       double inv_dr = 1 / sqrt(DotProduct(dr, dr, ndim) + small_number);
       double inv_dr3 = inv_dr*inv_dr*inv_dr;
@@ -539,8 +545,8 @@ void Ewald<ndim>::CalculatePeriodicCorrection
       gpotcorr -= m*inv_dr ;
 
       // Correct the distance
-      double size[3] = { 0.5*lx_per, 0.5*ly_per, 0.5*lz_per } ;
       for (k=0; k<ndim;k++) {
+        if (!(ewald_periodicity & (1 << k))) continue;
         if (dr[k] > size[k])
           dr[k] -= 2*size[k] ;
         else if (dr[k] < - size[k])
-- 
2.43.0


From 2f1817ca612d8b0f4733738fd6167a9fdf5ee62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:59 +0000
Subject: [PATCH 100/106] fix: stars acted on gas without nearest images and
 periodic corrections

---
 src/GradhSph/GradhSph.cpp         | 13 +++++++++++++
 src/GradhSph/GradhSphTree.cpp     |  4 ++--
 src/Headers/MeshlessFV.h          |  6 ++++--
 src/Headers/Sph.h                 |  9 ++++++---
 src/MeshlessFV/MeshlessFVTree.cpp |  2 +-
 src/MeshlessFV/MfvCommon.cpp      | 13 +++++++++++++
 6 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 9f3a6fc..7a6f2a2 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -698,11 +698,15 @@ template <int ndim, template<int> class kernelclass>
 void GradhSph<ndim, kernelclass>::ComputeStarGravForces
  (const int N,                         ///< [in] No. of stars
   NbodyParticle<ndim> **nbodydata,     ///< [in] Array of star pointers
+  const DomainBox<ndim> &simbox,       ///< [in] Simulation domain box
+  Ewald<ndim> *ewald,                  ///< [in] Ewald gravity object pointer
   SphParticle<ndim> &part)             ///< [inout] SPH particle reference
 {
   int j;                               // Star counter
   int k;                               // Dimension counter
+  FLOAT aperiodic[ndim];               // Periodic correction to the acceleration
   FLOAT dr[ndim];                      // Relative position vector
+  FLOAT dr_corr[ndim];                 // Periodic correction to the position vector
   FLOAT drmag;                         // Distance
   FLOAT drsqd;                         // Distance squared
   //FLOAT drdt;                          // Rate of change of relative distance
@@ -711,6 +715,7 @@ void GradhSph<ndim, kernelclass>::ComputeStarGravForces
   FLOAT invhmean;                      // 1 / hmean
   FLOAT ms;                            // Star mass
   FLOAT paux;                          // Aux. force variable
+  FLOAT potperiodic;                   // Periodic correction to the potential
   GradhSphParticle<ndim>& parti = static_cast<GradhSphParticle<ndim>& > (part);
 
   // Loop over all stars and add each contribution
@@ -721,6 +726,7 @@ void GradhSph<ndim, kernelclass>::ComputeStarGravForces
     else ms = nbodydata[j]->m;
 
     for (k=0; k<ndim; k++) dr[k] = nbodydata[j]->r[k] - parti.r[k];
+    NearestPeriodicVector(simbox, dr, dr_corr);
     //for (k=0; k<ndim; k++) dv[k] = nbodydata[j]->v[k] - parti.v[k];
     drsqd    = DotProduct(dr,dr,ndim) + small_number;
     drmag    = sqrt(drsqd);
@@ -733,6 +739,13 @@ void GradhSph<ndim, kernelclass>::ComputeStarGravForces
     for (k=0; k<ndim; k++) parti.atree[k] += paux*dr[k];
     parti.gpot += ms*invhmean*kern.wpot(drmag*invhmean);
 
+    // Add periodic gravity contribution (if activated)
+    if (simbox.PeriodicGravity) {
+      ewald->CalculatePeriodicCorrection(ms, dr, aperiodic, potperiodic);
+      for (k=0; k<ndim; k++) parti.atree[k] += aperiodic[k];
+      parti.gpot += potperiodic;
+    }
+
     assert(invhmean > (FLOAT) 0.0);
 
   }
diff --git a/src/GradhSph/GradhSphTree.cpp b/src/GradhSph/GradhSphTree.cpp
index 5eb04bc..15c52d5 100644
--- a/src/GradhSph/GradhSphTree.cpp
+++ b/src/GradhSph/GradhSphTree.cpp
@@ -386,7 +386,7 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphHydroForces
       if (nbody->Nnbody > 0) {
         for (int j=0; j<Nactive; j++) {
           if (activelist[j] < sph->Nhydro) {
-            sph->ComputeStarGravForces(nbody->Nnbody,nbody->nbodydata,activepart[j]);
+            sph->ComputeStarGravForces(nbody->Nnbody, nbody->nbodydata, simbox, NULL, activepart[j]);
           }
         }
       }
@@ -602,7 +602,7 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphForces
       if (nbody->Nnbody > 0) {
         for (int j=0; j<Nactive; j++) {
           if (activelist[j] < sph->Nhydro) {
-            sph->ComputeStarGravForces(nbody->Nnbody, nbody->nbodydata, activepart[j]);
+            sph->ComputeStarGravForces(nbody->Nnbody, nbody->nbodydata, simbox, ewald, activepart[j]);
           }
         }
       }
diff --git a/src/Headers/MeshlessFV.h b/src/Headers/MeshlessFV.h
index 7cc9f7e..2800ff2 100644
--- a/src/Headers/MeshlessFV.h
+++ b/src/Headers/MeshlessFV.h
@@ -138,7 +138,8 @@ public:
   virtual void ComputeGodunovFlux(MeshlessFVParticle<ndim>&, NeighbourList<FluxNeib>&, FLOAT) = 0;
   virtual void ComputeSmoothedGravForces(MeshlessFVParticle<ndim>&, NeighbourList<GravNeib>&) = 0;
   virtual void ComputeDirectGravForces(MeshlessFVParticle<ndim>&, NeighbourList<DirectNeib>&) = 0;
-  virtual void ComputeStarGravForces(const int, NbodyParticle<ndim> **, MeshlessFVParticle<ndim> &) = 0;
+  virtual void ComputeStarGravForces(const int, NbodyParticle<ndim> **, const DomainBox<ndim> &,
+                                     Ewald<ndim> *, MeshlessFVParticle<ndim> &) = 0;
 
 
   // Other functions.
@@ -248,7 +249,8 @@ class MfvCommon : public MeshlessFV<ndim>
   virtual void ComputeGradients(MeshlessFVParticle<ndim>&, NeighbourList<GradNeib>&);
   virtual void ComputeSmoothedGravForces(MeshlessFVParticle<ndim>&, NeighbourList<GravNeib>&);
   virtual void ComputeDirectGravForces(MeshlessFVParticle<ndim>&, NeighbourList<DirectNeib>&);
-  void ComputeStarGravForces(const int, NbodyParticle<ndim> **, MeshlessFVParticle<ndim> &);
+  void ComputeStarGravForces(const int, NbodyParticle<ndim> **, const DomainBox<ndim> &,
+                             Ewald<ndim> *, MeshlessFVParticle<ndim> &);
 
   kernelclass<ndim> kern;                  ///< SPH kernel
   SlopeLimiterType limiter;
diff --git a/src/Headers/Sph.h b/src/Headers/Sph.h
index cedd705..3c5ccea 100644
--- a/src/Headers/Sph.h
+++ b/src/Headers/Sph.h
@@ -117,7 +117,8 @@ class Sph : public Hydrodynamics<ndim>
   virtual int ComputeH(SphParticle<ndim> &, FLOAT, const vector<DensityParticle> &,
                        Nbody<ndim> *) = 0;
   virtual void ComputeThermalProperties(SphParticle<ndim> &) = 0;
-  virtual void ComputeStarGravForces(const int, NbodyParticle<ndim> **, SphParticle<ndim> &) = 0;
+  virtual void ComputeStarGravForces(const int, NbodyParticle<ndim> **, const DomainBox<ndim> &,
+                                     Ewald<ndim> *, SphParticle<ndim> &) = 0;
 
 #if !defined(SWIG)
   template<template<int> class Kernel>
@@ -251,7 +252,8 @@ public:
   virtual void ComputeSphGravForces(GradhSphParticle<ndim>&, NeighbourList<HydroNeib>&);
   virtual void ComputeSphHydroGravForces(GradhSphParticle<ndim>&, NeighbourList<HydroNeib>&);
   virtual void ComputeSphHydroForces(GradhSphParticle<ndim>&, NeighbourList<HydroNeib>&);
-  void ComputeStarGravForces(const int, NbodyParticle<ndim> **, SphParticle<ndim> &);
+  void ComputeStarGravForces(const int, NbodyParticle<ndim> **, const DomainBox<ndim> &,
+                             Ewald<ndim> *, SphParticle<ndim> &);
 #if defined MPI_PARALLEL
   virtual void FinishReturnExport ();
 #endif
@@ -329,7 +331,8 @@ class SM2012Sph: public Sph<ndim>
                             SphParticle<ndim> &, SphParticle<ndim> *) {};
   void ComputeDirectGravForces(const int, const int, int *,
                                SphParticle<ndim> &, SphParticle<ndim> *) {};
-  void ComputeStarGravForces(const int, NbodyParticle<ndim> **, SphParticle<ndim> &) {};
+  void ComputeStarGravForces(const int, NbodyParticle<ndim> **, const DomainBox<ndim> &,
+                             Ewald<ndim> *, SphParticle<ndim> &) {};
 
   kernelclass<ndim> kern;                   ///< SPH kernel
   SM2012SphParticle<ndim> *sphdata;         ///< Pointer to particle data
diff --git a/src/MeshlessFV/MeshlessFVTree.cpp b/src/MeshlessFV/MeshlessFVTree.cpp
index 24405d7..8ba4001 100644
--- a/src/MeshlessFV/MeshlessFVTree.cpp
+++ b/src/MeshlessFV/MeshlessFVTree.cpp
@@ -818,7 +818,7 @@ void MeshlessFVTree<ndim,ParticleType>::UpdateAllGravForces
       // Compute all star forces for active particles
       for (int j=0; j<Nactive; j++) {
         if (activelist[j] < mfv->Nhydro) {
-          mfv->ComputeStarGravForces(nbody->Nnbody, nbody->nbodydata, activepart[j]);
+          mfv->ComputeStarGravForces(nbody->Nnbody, nbody->nbodydata, simbox, ewald, activepart[j]);
         }
       }
 
diff --git a/src/MeshlessFV/MfvCommon.cpp b/src/MeshlessFV/MfvCommon.cpp
index 913fa19..20d324c 100644
--- a/src/MeshlessFV/MfvCommon.cpp
+++ b/src/MeshlessFV/MfvCommon.cpp
@@ -477,11 +477,15 @@ template <int ndim, template<int> class kernelclass, class SlopeLimiter>
 void MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeStarGravForces
  (const int N,                         ///< [in] No. of stars
   NbodyParticle<ndim> **nbodydata,     ///< [in] Array of star pointers
+  const DomainBox<ndim> &simbox,       ///< [in] Simulation domain box
+  Ewald<ndim> *ewald,                  ///< [in] Ewald gravity object pointer
   MeshlessFVParticle<ndim> &part)      ///< [inout] SPH particle reference
 {
   int j;                               // Star counter
   int k;                               // Dimension counter
+  FLOAT aperiodic[ndim];               // Periodic correction to the acceleration
   FLOAT dr[ndim];                      // Relative position vector
+  FLOAT dr_corr[ndim];                 // Periodic correction to the position vector
   FLOAT drmag;                         // Distance
   FLOAT drsqd;                         // Distance squared
   //FLOAT drdt;                          // Rate of change of relative distance
@@ -490,6 +494,7 @@ void MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeStarGravForces
   FLOAT invhmean;                      // 1 / hmean
   FLOAT ms;                            // Star mass
   FLOAT paux;                          // Aux. force variable
+  FLOAT potperiodic;                   // Periodic correction to the potential
   MeshlessFVParticle<ndim>& parti = static_cast<MeshlessFVParticle<ndim>& > (part);
 
   // Loop over all stars and add each contribution
@@ -499,6 +504,7 @@ void MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeStarGravForces
     ms = nbodydata[j]->m;
 
     for (k=0; k<ndim; k++) dr[k] = nbodydata[j]->r[k] - parti.r[k];
+    NearestPeriodicVector(simbox, dr, dr_corr);
     drsqd    = DotProduct(dr,dr,ndim) + small_number;
     drmag    = sqrt(drsqd);
     invdrmag = (FLOAT) 1.0/drmag;
@@ -509,6 +515,13 @@ void MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeStarGravForces
     for (k=0; k<ndim; k++) parti.atree[k] += paux*dr[k];
     parti.gpot += ms*invhmean*kern.wpot(drmag*invhmean);
 
+    // Add periodic gravity contribution (if activated)
+    if (simbox.PeriodicGravity) {
+      ewald->CalculatePeriodicCorrection(ms, dr, aperiodic, potperiodic);
+      for (k=0; k<ndim; k++) parti.atree[k] += aperiodic[k];
+      parti.gpot += potperiodic;
+    }
+
     assert(drmag > (FLOAT) 0.0);
     assert(drmag*invhmean > (FLOAT) 0.0);
 
-- 
2.43.0


From 838b59168e0d605f59ec8d928a6989351268b47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:12 +0000
Subject: [PATCH 101/106] fix: gas acted on stars through tree cells without
 nearest images and periodic corrections

---
 src/Headers/Tree.h     |  8 ++++----
 src/Tree/HydroTree.cpp | 14 ++++++++++++--
 src/Tree/Tree.cpp      |  8 +++++++-
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/Headers/Tree.h b/src/Headers/Tree.h
index cfbfbb0..b243d14 100644
--- a/src/Headers/Tree.h
+++ b/src/Headers/Tree.h
@@ -114,8 +114,8 @@ protected:
 	virtual void ComputeNeighbourAndGhostList(const TreeCellBase<ndim> &, NeighbourManagerBase&) = 0 ;
 	virtual void ComputeGravityInteractionAndGhostList(const TreeCellBase<ndim> &,
 	                                                   NeighbourManagerDim<ndim>& neibmanager)=0;
-	virtual int ComputeStarGravityInteractionList(const NbodyParticle<ndim> *, const FLOAT, const int,
-	                                              const int, const int, int &, int &, int &, int *, int *,
+	virtual int ComputeStarGravityInteractionList(const NbodyParticle<ndim> *, const DomainBox<ndim> &,
+	                                              const FLOAT, const int, const int, const int, int &, int &, int &, int *, int *,
 	                                              MultipoleMoment<ndim> *, Particle<ndim> *) = 0;
 #if defined(MPI_PARALLEL)
 	virtual int ComputeImportedCellList(vector<TreeCellBase<ndim> >& ) = 0;
@@ -295,8 +295,8 @@ protected:
   void ComputeNeighbourList(const TreeCellBase<ndim> &cell,NeighbourManagerBase& neibmanager);
   void ComputeNeighbourAndGhostList(const TreeCellBase<ndim> &, NeighbourManagerBase&);
   void ComputeGravityInteractionAndGhostList(const TreeCellBase<ndim> &, NeighbourManagerDim<ndim>& neibmanager);
-  int ComputeStarGravityInteractionList(const NbodyParticle<ndim> *, const FLOAT, const int,
-                                        const int, const int, int &, int &, int &, int *, int *,
+  int ComputeStarGravityInteractionList(const NbodyParticle<ndim> *, const DomainBox<ndim> &,
+                                        const FLOAT, const int, const int, const int, int &, int &, int &, int *, int *,
                                         MultipoleMoment<ndim> *, Particle<ndim> *);
 
   virtual bool ComputeSignalVelocityFromDistantInteractions(const TreeCellBase<ndim>& cell,
diff --git a/src/Tree/HydroTree.cpp b/src/Tree/HydroTree.cpp
index 7049260..008121e 100644
--- a/src/Tree/HydroTree.cpp
+++ b/src/Tree/HydroTree.cpp
@@ -611,7 +611,7 @@ void HydroTree<ndim,ParticleType>::UpdateAllStarGasForces
 
       // Compute neighbour list for cell depending on physics options
       okflag = tree->ComputeStarGravityInteractionList
-       (star, macfactor, Nneibmax, Nneibmax, Ngravcellmax, Nneib,
+       (star, simbox, macfactor, Nneibmax, Nneibmax, Ngravcellmax, Nneib,
         Ndirect, Ngravcell, neiblist, directlist, gravcell, partdata);
 
       // If there are too many neighbours, reallocate the arrays and recompute the neighbour lists.
@@ -620,7 +620,7 @@ void HydroTree<ndim,ParticleType>::UpdateAllStarGasForces
         Ngravcellmax = 2*Ngravcellmax;
         gravcell = new MultipoleMoment<ndim>[Ngravcellmax];
         okflag = tree->ComputeStarGravityInteractionList
-         (star, macfactor, Nneibmax, Nneibmax, Ngravcellmax, Nneib,
+         (star, simbox, macfactor, Nneibmax, Nneibmax, Ngravcellmax, Nneib,
           Ndirect, Ngravcell, neiblist, directlist, gravcell, partdata);
       };
 
@@ -635,6 +635,16 @@ void HydroTree<ndim,ParticleType>::UpdateAllStarGasForces
         ComputeCellQuadrupoleForces(star->gpot, star->a, star->r, Ngravcell, gravcell);
       }
 
+      // Add the periodic correction force for all cell COMs
+      if (simbox.PeriodicGravity) {
+        for (int jj=0; jj<Ngravcell; jj++) {
+          FLOAT draux[ndim], aperiodic[ndim], potperiodic;
+          for (int k=0; k<ndim; k++) draux[k] = gravcell[jj].r[k] - star->r[k];
+          ewald->CalculatePeriodicCorrection(gravcell[jj].m, draux, aperiodic, potperiodic);
+          for (int k=0; k<ndim; k++) star->a[k] += aperiodic[k];
+          star->gpot += potperiodic;
+        }
+      }
 
     }
     //=============================================================================================
diff --git a/src/Tree/Tree.cpp b/src/Tree/Tree.cpp
index c0ccb4a..d04086f 100644
--- a/src/Tree/Tree.cpp
+++ b/src/Tree/Tree.cpp
@@ -749,6 +749,7 @@ void Tree<ndim,ParticleType,TreeCell>::ComputeGravityInteractionAndGhostList
 template <int ndim, template<int> class ParticleType, template<int> class TreeCell>
 int Tree<ndim,ParticleType,TreeCell>::ComputeStarGravityInteractionList
  (const NbodyParticle<ndim> *star,     ///< [in] Nbody particle
+  const DomainBox<ndim> &simbox,       ///< [in] Simulation domain box
   const FLOAT macfactor,               ///< [in] Gravity MAC factor
   const int Nneibmax,                  ///< [in] Max. no. of SPH neighbours
   const int Ndirectmax,                ///< [in] Max. no. of direct-sum neighbours
@@ -766,6 +767,7 @@ int Tree<ndim,ParticleType,TreeCell>::ComputeStarGravityInteractionList
   int i;                               // Particle id
   int k;                               // Neighbour counter
   FLOAT dr[ndim];                      // Relative position vector
+  FLOAT dr_corr[ndim];                 // Periodic correction vector
   FLOAT drsqd;                         // Distance squared
   FLOAT hrangemax;                     // Maximum kernel extent
   FLOAT rs[ndim];                      // Position of star
@@ -788,7 +790,9 @@ int Tree<ndim,ParticleType,TreeCell>::ComputeStarGravityInteractionList
   //===============================================================================================
   while (cc < Ncell) {
 
+    // Calculate closest periodic replica of cell
     for (k=0; k<ndim; k++) dr[k] = celldata[cc].rcell[k] - rs[k];
+    NearestPeriodicVector(simbox, dr, dr_corr);
     drsqd = DotProduct(dr, dr, ndim);
 
 
@@ -832,7 +836,9 @@ int Tree<ndim,ParticleType,TreeCell>::ComputeStarGravityInteractionList
         }
       }
       else if (Ngravcell < Ngravcellmax && celldata[cc].N > 0) {
-        gravcell[Ngravcell++] = MultipoleMoment<ndim>(celldata[cc]);
+        gravcell[Ngravcell] = MultipoleMoment<ndim>(celldata[cc]);
+        for (k=0; k<ndim; k++) gravcell[Ngravcell].r[k] += dr_corr[k];
+        Ngravcell++;
       }
       else {
         return -1;
-- 
2.43.0


From 5fc58c7fa57b35dff103a40a323ae20d4a4812c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:48 +0000
Subject: [PATCH 102/106] fix: self-gravity pairs across a periodic face were
 not softened in cells wider than half the box

---
 src/Headers/NeighbourManager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/NeighbourManager.h b/src/Headers/NeighbourManager.h
index efd37b0..2892e66 100644
--- a/src/Headers/NeighbourManager.h
+++ b/src/Headers/NeighbourManager.h
@@ -509,7 +509,7 @@ private:
 
       // Compute relative position and distance quantities for pair
       for (int k=0; k<ndim; k++) draux[k] = neibpart.r[k] - rp[k];
-      if (j < _NPeriodicGhosts && hydromask[neibpart.ptype])
+      if (j < _NPeriodicGhosts)
         GhostFinder.ApplyPeriodicDistanceCorrection(neibpart.r, draux);
 
       const FLOAT drsqd = DotProduct(draux,draux,ndim);
-- 
2.43.0


From 6b3a1a2e1d532d7a87498f2c3ce863fff603c224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:24 +0000
Subject: [PATCH 103/106] fix: snapshots returned zeros for non-gas particles
 and garbage for iorig

---
 src/Common/SphSnapshot.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Common/SphSnapshot.cpp b/src/Common/SphSnapshot.cpp
index aa61fcf..a7c4525 100644
--- a/src/Common/SphSnapshot.cpp
+++ b/src/Common/SphSnapshot.cpp
@@ -345,9 +345,9 @@ void SphSnapshot<ndims>::CopyDataFromSimulation()
     Particle<ndims>& part = simulation->hydro->GetParticlePointer(i);
     int ptype = part.ptype;
 
-    if (ptype == gas_type) {
+    if (ptype != dust_type) {
       Species::maptype& sph_values = data["sph"].values;
-      sph_values["iorig"][igas] = reinterpret_cast<SNAPFLOAT&>( part.iorig);
+      sph_values["iorig"][igas] = (SNAPFLOAT) part.iorig;
       sph_values["x"][igas] = (SNAPFLOAT) part.r[0];
       sph_values["vx"][igas] = (SNAPFLOAT) part.v[0];
       sph_values["ax"][igas] = (SNAPFLOAT) part.a[0];
@@ -371,7 +371,7 @@ void SphSnapshot<ndims>::CopyDataFromSimulation()
     }
     else if (ptype == dust_type) {
       Species::maptype& dust_values = data["dust"].values;
-      dust_values["iorig"][idust] = reinterpret_cast<SNAPFLOAT&>( part.iorig);
+      dust_values["iorig"][idust] = (SNAPFLOAT) part.iorig;
       dust_values["x"][idust] = (SNAPFLOAT) part.r[0];
       dust_values["vx"][idust] = (SNAPFLOAT) part.v[0];
       dust_values["ax"][idust] = (SNAPFLOAT) part.a[0];
-- 
2.43.0


From f0163622bc2da54a8c4a513769b9e2c13dd719e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:24 +0000
Subject: [PATCH 104/106] fix: gravitational potential extracted with the units
 of energy

---
 src/Common/SphSnapshot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/SphSnapshot.cpp b/src/Common/SphSnapshot.cpp
index a7c4525..e63ccd6 100644
--- a/src/Common/SphSnapshot.cpp
+++ b/src/Common/SphSnapshot.cpp
@@ -587,7 +587,7 @@ UnitInfo SphSnapshotBase::ExtractArray
     unit = &(units->r);
   }
   else if (name == "gpot") {
-    unit = &(units->E);
+    unit = &(units->u);
   }
   else {
     string message = "Warning: the selected array: " + name + " has not been recognized";
-- 
2.43.0


From 84370f431adcb7320bdbf385ac5f30ab32ee9217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:24 +0000
Subject: [PATCH 105/106] fix: rendered pixels were evaluated at their lower
 left corner

---
 src/Common/Render.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Common/Render.cpp b/src/Common/Render.cpp
index b82b5ab..82e679e 100644
--- a/src/Common/Render.cpp
+++ b/src/Common/Render.cpp
@@ -221,8 +221,8 @@ int Render<ndim>::CreateColumnRenderingGrid
     for (jj=jmin; jj<=jmax; jj++) {
       for (ii=imin; ii<=imax; ii++) {
         c = ii + (iygrid - jj - 1)*ixgrid;
-        dr[0] = xmin + dx*(SNAPFLOAT) ii - xvalues[i];
-        dr[1] = ymin + dy*(SNAPFLOAT) jj - yvalues[i];
+        dr[0] = rgrid[2*c] - xvalues[i];
+        dr[1] = rgrid[2*c + 1] - yvalues[i];
         drsqd = dr[0]*dr[0] + dr[1]*dr[1];
         //if (drsqd > hrangesqd) continue;
         drmag = sqrt(drsqd);
@@ -389,8 +389,8 @@ int Render<ndim>::CreateSliceRenderingGrid
     for (jj=jmin; jj<=jmax; jj++) {
       for (ii=imin; ii<=imax; ii++) {
         c = ii + (iygrid - jj - 1)*ixgrid;
-        dr[0] = xmin + dx*(SNAPFLOAT) ii - xvalues[i];
-        dr[1] = ymin + dy*(SNAPFLOAT) jj - yvalues[i];
+        dr[0] = rgrid[2*c] - xvalues[i];
+        dr[1] = rgrid[2*c + 1] - yvalues[i];
         dr[2] = zslice - zvalues[i];
         drsqd = dr[0]*dr[0] + dr[1]*dr[1] + dr[2]*dr[2];
         //if (drsqd > hrangesqd) continue;
-- 
2.43.0


From 51e4c8975cac844fea17b4b800ed998316bdbf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:15 +0000
Subject: [PATCH 106/106] fix: column renders of 3D data weighted by h^-3
 instead of h^-2

---
 src/Common/Render.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Common/Render.cpp b/src/Common/Render.cpp
index 82e679e..9a6e17b 100644
--- a/src/Common/Render.cpp
+++ b/src/Common/Render.cpp
@@ -214,7 +214,8 @@ int Render<ndim>::CreateColumnRenderingGrid
     // If kernel does not overlap rendered image, skip particle entirely
     //if (imin == imax || jmin == jmax) continue;
     invh = 1.0/hvalues[i];
-    wnorm = mvalues[i]/rhovalues[i]*pow(invh,ndim);
+    // (the line-of-sight integral of the 3D kernel scales as h^-2)
+    wnorm = mvalues[i]/rhovalues[i]*pow(invh,min(ndim,2));
 
     // Now loop over all pixels for particle
     //---------------------------------------------------------------------------------------------
-- 
2.43.0

