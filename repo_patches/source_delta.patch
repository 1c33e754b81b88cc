From 3f52b305741928c85e502515a1c66ac134af917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 01/39] fix: call DMSetUp on the 3D grids and on the Laplacian
 mesh

DMDAGetOwnershipRanges, DMDASetFieldName and DMCompositeAddDM need a DMDA that
is set up; createMesh<3> and createLaplacianMesh failed with PETSc's 'You should
call DMSetUp() first'.
---
 cafes/fem/mesh.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cafes/fem/mesh.hpp b/cafes/fem/mesh.hpp
index e812f06..8b8539a 100644
--- a/cafes/fem/mesh.hpp
+++ b/cafes/fem/mesh.hpp
@@ -252,6 +252,7 @@ namespace cafes
         ierr = DMDACreate2d(PETSC_COMM_WORLD, b_type[0], b_type[1], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, &dm);CHKERRQ(ierr);
+        ierr = DMSetUp(dm);CHKERRQ(ierr);
         ierr = DMDASetFieldName(dm, 0, "u");CHKERRQ(ierr);
         PetscFunctionReturn(0);
     }
@@ -275,6 +276,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mpres[0], mpres[1], mpres[2], PETSC_DECIDE, PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, 0, &DAPressure);CHKERRQ(ierr);
+        ierr = DMSetUp(DAPressure);CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAPressure, 0, "p");CHKERRQ(ierr);
 
         ierr = DMDAGetInfo(DAPressure, NULL, NULL, NULL, NULL, &npx, &npy, &npz, NULL, NULL, NULL, NULL, NULL, NULL);CHKERRQ(ierr);
@@ -290,6 +292,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], mvel[2], npx, npy, npz,
                             3, 1, lxu, lyu, lzu, &DAVelocity);CHKERRQ(ierr);
+        ierr = DMSetUp(DAVelocity);CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 0, "u");CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 1, "v");CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 2, "w");CHKERRQ(ierr);
@@ -319,6 +322,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], mvel[2], PETSC_DECIDE, PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, 0, &dm);CHKERRQ(ierr);
+        ierr = DMSetUp(dm);CHKERRQ(ierr);
         ierr = DMDASetFieldName(dm, 0, "u");CHKERRQ(ierr);
         PetscFunctionReturn(0);
     }
-- 
2.43.0


From 90c0cb50830e1a257466024db3aaa167a1d1b55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 02/39] fix: apply_mass_matrix uses the pressure mesh size on
 the pressure block

The lambda doubling the mesh size took its argument by value, so the pressure
mass matrix was the one of cells of size h instead of 2h.
---
 cafes/fem/matrixFree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/fem/matrixFree.hpp b/cafes/fem/matrixFree.hpp
index 96f3c6e..2e4dc72 100644
--- a/cafes/fem/matrixFree.hpp
+++ b/cafes/fem/matrixFree.hpp
@@ -279,7 +279,7 @@ namespace cafes
             PetscFunctionBeginUser;
 
             auto hp = h;
-            std::for_each(hp.begin(), hp.end(), [](auto x) { x *= 2; });
+            std::for_each(hp.begin(), hp.end(), [](auto &x) { x *= 2; });
 
             using ctx = problem::context<Dimensions, 2>;
             ctx s{dm, {{h, hp}}, mass_mult};
-- 
2.43.0


From 47034eaf59774db21e8bfe14e629a895e76f5541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 03/39] fix: make the assembled strain tensor element matrix
 symmetric

The u-v block held the transposed mixed derivative, so the assembled element
matrix differed from the matrix free one (visible on boundary rows).
---
 cafes/fem/matElem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/fem/matElem.hpp b/cafes/fem/matElem.hpp
index 00f1609..c8afc3b 100644
--- a/cafes/fem/matElem.hpp
+++ b/cafes/fem/matElem.hpp
@@ -392,7 +392,7 @@ auto getMatElemStrainTensorA(std::array<double, 2> const &h)
         {
             MatElem[i + j * 8] =
                 2 * hyx * matElem2d_dxudxu[i][j] + hxy * matElem2d_dyudyu[i][j];
-            MatElem[i + 4 + j * 8] = matElem2d_dxudyu[i][j];
+            MatElem[i + 4 + j * 8] = matElem2d_dxudyu[j][i];
 
             MatElem[i + (j + 4) * 8] = matElem2d_dxudyu[i][j];
             MatElem[i + 4 + (j + 4) * 8] =
-- 
2.43.0


From 41ee18d212f09661898d73a9c0ce55b26d0711ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 04/39] fix: SetDirichletOnMat uses ghosted local indices on
 one process too

On one process with a periodic direction the local numbering has ghost points,
so the stride mx addressed the wrong rows of the matrix.
---
 cafes/fem/bc.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/cafes/fem/bc.hpp b/cafes/fem/bc.hpp
index a946d5d..7aebd9a 100644
--- a/cafes/fem/bc.hpp
+++ b/cafes/fem/bc.hpp
@@ -185,7 +185,7 @@ namespace cafes
       PetscErrorCode ierr;
       PetscFunctionBeginUser;
 
-      PetscInt       i, j, d, ind, nx, ny, size;
+      PetscInt       i, j, d, ind, nx, ny;
       PetscInt       local_id, nbcs;
       PetscInt       *bc_id1, *bc_id2;
       DMDALocalInfo  info;
@@ -203,9 +203,8 @@ namespace cafes
       ierr = PetscMalloc(sizeof(PetscInt)*2*info.gym, &bc_id1);CHKERRQ(ierr);
       ierr = PetscMalloc(sizeof(PetscInt)*2*info.gxm, &bc_id2);CHKERRQ(ierr);
 
-      MPI_Comm_size(PETSC_COMM_WORLD, &size);
-      nx = (size == 1)? info.mx: info.gxm;
-      ny = (size == 1)? info.my: info.gym;
+      nx = info.gxm;
+      ny = info.gym;
 
       //left border
       nbcs = 0;
@@ -227,7 +226,7 @@ namespace cafes
 
       // right border
       nbcs = 0;
-      i = (size == 1) ? info.mx-1: info.gxm-1;
+      i = info.gxm-1;
       ind = 0;
       for(j=0; j<ny; j++){
         local_id = info.dof*(i + j*nx);
@@ -243,8 +242,6 @@ namespace cafes
 
       ierr = MatZeroRowsLocal(A, nbcs, bc_id1, 1.0, NULL, NULL);CHKERRQ(ierr);
 
-      nx = (size == 1) ? info.mx: info.gxm;
-
       // bottom border
       nbcs = 0;
       j = 0;
@@ -265,7 +262,7 @@ namespace cafes
 
       // top border
       nbcs = 0;
-      j = (size == 1) ? info.my-1:  info.gym-1;
+      j = info.gym-1;
       ind = 0;
       for(i=0; i<nx; i++){
         local_id = info.dof*(i + j*nx);
-- 
2.43.0


From cfe2c81f01324091fc87af3dadb147a825b81ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 05/39] fix: find the multigrid level from the x size, not from
 the total size

With the square root of the total number of nodes the search never ends on
most grids with different numbers of points per direction (-PMM -mx 5 -my 20).
---
 cafes/problem/stokes.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cafes/problem/stokes.hpp b/cafes/problem/stokes.hpp
index 5e2ac76..d62b658 100644
--- a/cafes/problem/stokes.hpp
+++ b/cafes/problem/stokes.hpp
@@ -60,17 +60,19 @@ namespace cafes
             ierr = KSPGetDM(ksp, &dm);CHKERRQ(ierr);
 
             int localsize, totalsize;
-            int localsize_0, totalsize_0;
             ierr = fem::get_DM_sizes(dm, localsize, totalsize);CHKERRQ(ierr);
-            ierr = fem::get_DM_sizes(ctx_->dm, localsize_0, totalsize_0);CHKERRQ(ierr);
 
-            int nx_0 = sqrt(totalsize_0/2), nx = sqrt(totalsize/2);
+            DMDALocalInfo info, info_0;
+            ierr = DMDAGetLocalInfo(dm, &info);CHKERRQ(ierr);
+            ierr = DMDAGetLocalInfo(ctx_->dm, &info_0);CHKERRQ(ierr);
+
+            int nx_0 = info_0.mx, nx = info.mx;
             int level = 0;
             // find the level in MG
             while(nx_0 != nx)
             {
                 level++;
-                nx_0 = (nx_0+1)/Dim;
+                nx_0 = (nx_0+1)/2;
             }
 
             auto mg_h = ctx_->h;
-- 
2.43.0


From 09c3a7ef98fb8a04bc27bcdb1fed8cc4f6d66514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 06/39] fix: sign of the prescribed translation of the
 particles in DtoN

operator-(velocity, vector) returned the opposite difference and vector += velocity
subtracted, so the rigid motion taken off on the surface was omega x r - V: the fluid
moved against the prescribed velocity.
---
 cafes/particle/geometry/vector.hpp  | 6 +++---
 cafes/problem/particle_operator.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cafes/particle/geometry/vector.hpp b/cafes/particle/geometry/vector.hpp
index 34c3d4b..3668f8b 100644
--- a/cafes/particle/geometry/vector.hpp
+++ b/cafes/particle/geometry/vector.hpp
@@ -117,7 +117,7 @@ namespace cafes
 
       vector& operator+=(physics::velocity<Dimensions> const& v)
       {
-          for(std::size_t i=0;i<Dimensions;++i) (*this)[i] -= v[i];
+          for(std::size_t i=0;i<Dimensions;++i) (*this)[i] += v[i];
           return *this;
       }
 
@@ -176,8 +176,8 @@ namespace cafes
                                    , vector<T, Dimensions> const& p
                                   )
     {
-        vector<T, Dimensions> that{p};
-        return that -= v;
+        vector<T, Dimensions> that{v};
+        return that -= p;
     }
 
     template<typename T, std::size_t Dimensions>
diff --git a/cafes/problem/particle_operator.hpp b/cafes/problem/particle_operator.hpp
index a43f14a..b244901 100644
--- a/cafes/problem/particle_operator.hpp
+++ b/cafes/problem/particle_operator.hpp
@@ -143,7 +143,7 @@ namespace cafes
       for(auto& rpts: r)
       {
         for(std::size_t i=0; i<rpts.size(); ++i){
-          g[ipart][i] -= particles[ipart].velocity_ - geometry::cross_product(particles[ipart].angular_velocity_, r[ipart][i]);
+          g[ipart][i] -= geometry::vector<double, Dimensions>{particles[ipart].velocity_} + geometry::cross_product(particles[ipart].angular_velocity_, r[ipart][i]);
         }
         ipart++;
       }
-- 
2.43.0


From bb2b8d43b6706fb33fc83bcf8a16a685cee48e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 07/39] fix: SEM::solve clears the right-hand side before the
 last problem

---
 cafes/problem/sem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index 28cd267..afb7e4c 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -199,6 +199,7 @@ namespace cafes
 
         // solve the problem with the right control
         ctx->compute_rhs = true;
+        ierr = VecSet(ctx->problem.rhs, 0.);CHKERRQ(ierr);
         ierr = init_problem<Dimensions, Ctx>(*ctx, sol, true);CHKERRQ(ierr);
         ierr = ctx->problem.solve();CHKERRQ(ierr);
 
-- 
2.43.0


From e14262cfdc97996116f351e16fb85a216c935fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 08/39] fix: linear_interpolation swaps the refinement factors
 of x and y

---
 cafes/posttraitement/interpolation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/posttraitement/interpolation.hpp b/cafes/posttraitement/interpolation.hpp
index ae8eb18..e896f9f 100644
--- a/cafes/posttraitement/interpolation.hpp
+++ b/cafes/posttraitement/interpolation.hpp
@@ -103,9 +103,9 @@ namespace cafes
         auto const kernel_pos = [&](auto const &pos)
         {
           auto ielem = fem::get_element(pos);
-          for(std::size_t j=0; j<refine[0]+1; j++)
+          for(std::size_t j=0; j<refine[1]+1; j++)
           {
-            for(std::size_t i =0; i<refine[1]+1; i++)
+            for(std::size_t i =0; i<refine[0]+1; i++)
             {
               auto refcoord = pos*h + geometry::position<double, Dimensions>{i*h[0]/refine[0], j*h[1]/refine[1]};
               auto bfunc = fem::P1_integration(geometry::position<double,Dimensions>{refcoord[0] - h[0]*pos[0], refcoord[1] - h[1]*pos[1]}, h);
-- 
2.43.0


From 8977ddb97dc06023fd39dd629cb361edf9397e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 09/39] fix: linear_interpolation writes one component per
 pressure node

---
 cafes/posttraitement/interpolation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/posttraitement/interpolation.hpp b/cafes/posttraitement/interpolation.hpp
index e896f9f..34b3815 100644
--- a/cafes/posttraitement/interpolation.hpp
+++ b/cafes/posttraitement/interpolation.hpp
@@ -111,14 +111,14 @@ namespace cafes
               auto bfunc = fem::P1_integration(geometry::position<double,Dimensions>{refcoord[0] - h[0]*pos[0], refcoord[1] - h[1]*pos[1]}, h);
               auto refpos = geometry::position<int, Dimensions>{i+pos[0]*refine[0],j+pos[1]*refine[1]};
               auto uref = solv_ref.at(refpos);
-              for (std::size_t d=0; d<Dimensions; d++)
+              for (std::size_t d=0; d<solv_ref.dof_; d++)
               {
                 uref[d] = 0;
               }
               for (std::size_t k=0; k<bfunc.size(); k++)
               {
                 auto u = solv.at(ielem[k]);
-                for (std::size_t d=0; d<Dimensions; d++)
+                for (std::size_t d=0; d<solv_ref.dof_; d++)
                 {
                   uref[d] += u[d]*bfunc[k];
                 }
-- 
2.43.0


From 08de9a3798ca041f360f25c8fcc7ebc3367da321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 10/39] fix: linear_interpolation in parallel fills the refined
 nodes owned by the process

The refined nodes of a cell are not always on the process which owns the cell: writing them
through the ghosted vector was out of bounds, or missed nodes.
---
 cafes/posttraitement/interpolation.hpp | 46 +++++++++++---------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/cafes/posttraitement/interpolation.hpp b/cafes/posttraitement/interpolation.hpp
index 34b3815..b504319 100644
--- a/cafes/posttraitement/interpolation.hpp
+++ b/cafes/posttraitement/interpolation.hpp
@@ -100,47 +100,39 @@ namespace cafes
       // INTERPOLATION KERNEL
       auto const kernel = [](const auto& solv, auto& solv_ref, const auto& refine, const auto& h)
       {
+        // pos is a node of the refined mesh owned by this process: DMRefine does not
+        // give the refined nodes of a cell to the process which owns the cell, but
+        // the nodes of the coarse cell are always in its ghosted region.
         auto const kernel_pos = [&](auto const &pos)
         {
-          auto ielem = fem::get_element(pos);
-          for(std::size_t j=0; j<refine[1]+1; j++)
+          auto cell = geometry::position<int, Dimensions>{pos[0]/refine[0], pos[1]/refine[1]};
+          auto coord = geometry::position<double, Dimensions>{(pos[0]%refine[0])*h[0]/refine[0], (pos[1]%refine[1])*h[1]/refine[1]};
+          auto bfunc = fem::P1_integration(coord, h);
+          auto ielem = fem::get_element(cell);
+          auto uref = solv_ref.at_g(pos);
+          for (std::size_t d=0; d<solv_ref.dof_; d++)
+            uref[d] = 0;
+          for (std::size_t k=0; k<bfunc.size(); k++)
           {
-            for(std::size_t i =0; i<refine[0]+1; i++)
-            {
-              auto refcoord = pos*h + geometry::position<double, Dimensions>{i*h[0]/refine[0], j*h[1]/refine[1]};
-              auto bfunc = fem::P1_integration(geometry::position<double,Dimensions>{refcoord[0] - h[0]*pos[0], refcoord[1] - h[1]*pos[1]}, h);
-              auto refpos = geometry::position<int, Dimensions>{i+pos[0]*refine[0],j+pos[1]*refine[1]};
-              auto uref = solv_ref.at(refpos);
-              for (std::size_t d=0; d<solv_ref.dof_; d++)
-              {
-                uref[d] = 0;
-              }
-              for (std::size_t k=0; k<bfunc.size(); k++)
-              {
-                auto u = solv.at(ielem[k]);
-                for (std::size_t d=0; d<solv_ref.dof_; d++)
-                {
-                  uref[d] += u[d]*bfunc[k];
-                }
-              }
-            }
+            // the last nodes have no cell after them
+            if (bfunc[k] == 0.)
+              continue;
+            auto u = solv.at(ielem[k]);
+            for (std::size_t d=0; d<solv_ref.dof_; d++)
+              uref[d] += u[d]*bfunc[k];
           }
         };
         return kernel_pos;
       };
 
       // VELOCITY INTERPOLATION
-      auto box = fem::get_DM_bounds<Dimensions>(dav);
+      auto box = fem::get_DM_bounds<Dimensions>(dav_refine, false);
       algorithm::iterate(box, kernel(solv, solv_ref, refine, h));
 
       // PRESSURE INTERPOLATION
-      auto boxp = fem::get_DM_bounds<Dimensions>(dap);
+      auto boxp = fem::get_DM_bounds<Dimensions>(dap_refine, false);
       algorithm::iterate(boxp, kernel(solp, solp_ref, refine, h));
 
-      // LOCAL TO GLOBAL
-      ierr = solv_ref.local_to_global(INSERT_VALUES);CHKERRQ(ierr);
-      ierr = solp_ref.local_to_global(INSERT_VALUES);CHKERRQ(ierr);
-
       PetscFunctionReturn(0);
     }
 
-- 
2.43.0


From c3ae950344ce054f6a50780334592957039b9b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 11/39] fix: set_materials starts from empty counts and surface
 points

---
 cafes/particle/particle.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/particle.hpp b/cafes/particle/particle.hpp
index b02681a..bb51c6d 100644
--- a/cafes/particle/particle.hpp
+++ b/cafes/particle/particle.hpp
@@ -253,10 +253,13 @@ namespace cafes
                      nb_type& nb_surf_points, num_type& num, box_type const& box,
                      std::array<double, Dimensions> const &h, dpart_type const& dpart, std::size_t const scale)
   {
+    // the vectors may hold the result of a previous call
+    surf_points.clear();
+    radial_vec.clear();
     surf_points.resize(parts.size());
     radial_vec.resize(parts.size());
-    nb_surf_points.resize(parts.size());
-    num.resize(parts.size());
+    nb_surf_points.assign(parts.size(), 0);
+    num.assign(parts.size(), 0);
 
     std::size_t size = 0;
     std::size_t ipart = 0;
-- 
2.43.0


From 9389696340bed75b46dcbc295ef9d855f7788461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 12/39] fix: the singular force is added to the force of its
 own particle

---
 cafes/particle/forces_torques.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/forces_torques.hpp b/cafes/particle/forces_torques.hpp
index 7d80856..29659f7 100644
--- a/cafes/particle/forces_torques.hpp
+++ b/cafes/particle/forces_torques.hpp
@@ -114,7 +114,7 @@ namespace cafes
         for(std::size_t ipart=0; ipart<particles.size(); ++ipart)
         {
           for(std::size_t d=0; d<Dimensions; ++d)
-            forces[ipart*Dimensions][d] += sing_forces[ipart][d];
+            forces[ipart][d] += sing_forces[ipart][d];
           // TODO: add singular torques if needed
         }
       }
-- 
2.43.0


From 695c4a28c4d46878140f9324213c3f42deee3b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 13/39] fix: pressure grid sizes in the XDMF file

The dataset has (mx+1)/2 points in each direction: mx/2+1 without, mx/2 with periodicity.
---
 cafes/io/hdf5.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/io/hdf5.hpp b/cafes/io/hdf5.hpp
index f042650..11d321c 100644
--- a/cafes/io/hdf5.hpp
+++ b/cafes/io/hdf5.hpp
@@ -61,7 +61,7 @@ namespace cafes
                 << "    <Grid Name=\"pressure_grid\" GridType=\"Uniform\">\n";
             myfile << "      <Topology TopologyType=\"2DCoRectMesh\" "
                       "NumberOfElements=\""
-                   << info.mx / 2 + 1 << " " << info.my / 2 + 1 << "\"/>\n";
+                   << (info.mx + 1) / 2 << " " << (info.my + 1) / 2 << "\"/>\n";
             myfile << "      <Geometry GeometryType=\"ORIGIN_DXDY\">\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">0.0 0.0 </DataItem>\n";
@@ -73,7 +73,7 @@ namespace cafes
                       "AttributeType=\"Scalar\" Center=\"Node\">\n";
             myfile << "        <DataItem DataType=\"Float\" Precision=\"8\" "
                       "Format=\"HDF\" Dimensions=\""
-                   << info.mx / 2 << " " << info.my / 2 << "\">\n";
+                   << (info.mx + 1) / 2 << " " << (info.my + 1) / 2 << "\">\n";
             myfile << "          " << output_h5.str() << ":/pressure\n";
             myfile << "        </DataItem>\n";
             myfile << "      </Attribute>\n";
-- 
2.43.0


From 7e17e26202c5292638646868d19aaf69b2b5e866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 14/39] fix: XDMF sizes and steps are written slowest index
 first, like the HDF5 datasets

---
 cafes/io/hdf5.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cafes/io/hdf5.hpp b/cafes/io/hdf5.hpp
index 11d321c..cc42eab 100644
--- a/cafes/io/hdf5.hpp
+++ b/cafes/io/hdf5.hpp
@@ -61,19 +61,19 @@ namespace cafes
                 << "    <Grid Name=\"pressure_grid\" GridType=\"Uniform\">\n";
             myfile << "      <Topology TopologyType=\"2DCoRectMesh\" "
                       "NumberOfElements=\""
-                   << (info.mx + 1) / 2 << " " << (info.my + 1) / 2 << "\"/>\n";
+                   << (info.my + 1) / 2 << " " << (info.mx + 1) / 2 << "\"/>\n";
             myfile << "      <Geometry GeometryType=\"ORIGIN_DXDY\">\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">0.0 0.0 </DataItem>\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">"
-                   << 2 * h[0] << " " << 2 * h[1] << "</DataItem>\n";
+                   << 2 * h[1] << " " << 2 * h[0] << "</DataItem>\n";
             myfile << "      </Geometry>\n";
             myfile << "      <Attribute Name=\"pressure\" "
                       "AttributeType=\"Scalar\" Center=\"Node\">\n";
             myfile << "        <DataItem DataType=\"Float\" Precision=\"8\" "
                       "Format=\"HDF\" Dimensions=\""
-                   << (info.mx + 1) / 2 << " " << (info.my + 1) / 2 << "\">\n";
+                   << (info.my + 1) / 2 << " " << (info.mx + 1) / 2 << "\">\n";
             myfile << "          " << output_h5.str() << ":/pressure\n";
             myfile << "        </DataItem>\n";
             myfile << "      </Attribute>\n";
@@ -82,19 +82,19 @@ namespace cafes
                 << "    <Grid Name=\"velocity_grid\" GridType=\"Uniform\">\n";
             myfile << "      <Topology TopologyType=\"2DCoRectMesh\" "
                       "NumberOfElements=\""
-                   << info.mx << " " << info.my << "\"/>\n";
+                   << info.my << " " << info.mx << "\"/>\n";
             myfile << "      <Geometry GeometryType=\"ORIGIN_DXDY\">\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">0.0 0.0 </DataItem>\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">"
-                   << h[0] << " " << h[1] << "</DataItem>\n";
+                   << h[1] << " " << h[0] << "</DataItem>\n";
             myfile << "      </Geometry>\n";
             myfile << "      <Attribute Name=\"velocity\" "
                       "AttributeType=\"Vector\" Center=\"Node\">\n";
             myfile << "        <DataItem DataType=\"Float\" Precision=\"8\" "
                       "Format=\"HDF\" Dimensions=\""
-                   << info.mx << " " << info.my << " 2\">\n";
+                   << info.my << " " << info.mx << " 2\">\n";
             myfile << "          " << output_h5.str() << ":/velocity\n";
             myfile << "        </DataItem>\n";
             myfile << "      </Attribute>\n";
-- 
2.43.0


From ef11cf241a9439211e57661b521b2230fd6fc3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 15/39] fix: check_box_inside answers for the boxes, not for
 one direction

---
 cafes/particle/geometry/box.hpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/cafes/particle/geometry/box.hpp b/cafes/particle/geometry/box.hpp
index ac19c58..bf32df0 100644
--- a/cafes/particle/geometry/box.hpp
+++ b/cafes/particle/geometry/box.hpp
@@ -232,14 +232,7 @@ namespace cafes
     bool check_box_inside(box<T, Dimensions> const& b1, box<T, Dimensions> const& b2)
     // check if a part of box b2 is inside the box b1
     {
-      int count = 0;
-      for(std::size_t i=0; i<Dimensions; ++i){
-        if (b2.bottom_left[i] >= b1.bottom_left[i] && b2.bottom_left[i] <= b1.upper_right[i])
-          count++;
-        if (b2.upper_right[i] >= b1.bottom_left[i] && b2.upper_right[i] <= b1.upper_right[i])
-          count++;
-      }
-      return (count>0)?true:false;
+      return intersect(b1, b2);
     }
 
   }
-- 
2.43.0


From e0355c44fa62370e6ed9bf46c118a528982b13d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 16/39] fix: surface of a 3D super ellipsoid does not grow the
 vector it iterates over

---
 cafes/particle/geometry/super_ellipsoid.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index e9adf10..60d8bc7 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -240,7 +240,9 @@ namespace cafes
               that.insert(that.end(), temp2.cbegin(), temp2.cend());
 
             }
-            std::for_each(that.begin(), that.end(),[&](auto& p){that.push_back({p[0], p[1], -p[2]});});
+            auto size = that.size();
+            for(std::size_t i=0; i<size; ++i)
+              that.push_back({that[i][0], that[i][1], -that[i][2]});
             std::for_each(that.begin(), that.end(),[&](auto& p){p[0] += center_[0];p[1] += center_[1];p[2] += center_[2];});
             return that;
         }
-- 
2.43.0


From fe4cf3e908cc10b30bc4f079f10a182de375a699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 17/39] fix: normalize divides a quaternion by its norm, not by
 its square

---
 cafes/particle/geometry/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/quaternion.hpp b/cafes/particle/geometry/quaternion.hpp
index 7d2e35a..3e47fc7 100644
--- a/cafes/particle/geometry/quaternion.hpp
+++ b/cafes/particle/geometry/quaternion.hpp
@@ -89,7 +89,7 @@ namespace cafes
 
       void normalize()
       {
-        auto norm = std::inner_product(components_.begin(), components_.end(), components_.begin(), 0.);
+        auto norm = std::sqrt(std::inner_product(components_.begin(), components_.end(), components_.begin(), 0.));
         components_ /= norm;
       }
 
-- 
2.43.0


From d52f246bc3b6127b3afd99eca277d2cd67a900d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 18/39] fix: surface of a 3D super ellipsoid uses the exponents
 of its inside test

---
 cafes/particle/geometry/super_ellipsoid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index 60d8bc7..c03f95d 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -218,8 +218,8 @@ namespace cafes
         {
             std::vector<position_type> that;
             double omega1 = 0., omega2 = 0.;
-            double eps1 = n_;
-            double eps2 = e_;
+            double eps1 = e_;
+            double eps2 = n_;
 
             while (omega1 < M_PI/4){
               auto z1 = shape_factors_[2]*std::pow(std::sin(omega1), eps2);
-- 
2.43.0


From a0a86deb5a79a136fcfe1ee2a914838c0a8f2dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 19/39] fix: inside test, samples and parametric points of a
 shape follow its rotation

---
 cafes/particle/geometry/super_ellipsoid.hpp | 38 ++++++++++++---------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index c03f95d..fdbbf24 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -243,6 +243,9 @@ namespace cafes
             auto size = that.size();
             for(std::size_t i=0; i<size; ++i)
               that.push_back({that[i][0], that[i][1], -that[i][2]});
+            if (q_.is_rotate()){
+              std::for_each(that.begin(), that.end(),[&](auto& p){ p = q_.rotate(p);});
+            }
             std::for_each(that.begin(), that.end(),[&](auto& p){p[0] += center_[0];p[1] += center_[1];p[2] += center_[2];});
             return that;
         }
@@ -270,37 +273,34 @@ namespace cafes
         position_type at(double u) const
         {
           static_assert(Dimensions == 2, "Incompatible dimension for parametric representation");
-          return  { shape_factors_[0] * c(u,n_) + center_[0]
-                  , shape_factors_[1] * s(u,n_) + center_[1]
-                  };
+          return radial(u) + center_;
         }
 
         position_type radial(double u) const
         {
           static_assert(Dimensions == 2, "Incompatible dimension for parametric representation");
-          return  { shape_factors_[0] * c(u,n_) 
-                  , shape_factors_[1] * s(u,n_) 
-                  };
+          position_type pos{ shape_factors_[0] * c(u,n_)
+                           , shape_factors_[1] * s(u,n_)
+                           };
+          return (q_.is_rotate()) ? q_.rotate(pos) : pos;
         }
 
         position_type at(double u, double v) const
         {
           static_assert(Dimensions == 3, "Incompatible dimension for parametric representation");
 
-          return  { shape_factors_[0] * c(v,n_) * c(u,e_) + center_[0]
-                  , shape_factors_[1] * c(v,n_) * s(u,e_) + center_[1]
-                  , shape_factors_[2] * s(v,n_) + center_[2]
-                  };
+          return radial(u, v) + center_;
         }
 
         position_type radial(double u, double v) const
         {
           static_assert(Dimensions == 3, "Incompatible dimension for parametric representation");
 
-          return  { shape_factors_[0] * c(v,n_) * c(u,e_)
-                  , shape_factors_[1] * c(v,n_) * s(u,e_)
-                  , shape_factors_[2] * s(v,n_) 
-                  };
+          position_type pos{ shape_factors_[0] * c(v,n_) * c(u,e_)
+                           , shape_factors_[1] * c(v,n_) * s(u,e_)
+                           , shape_factors_[2] * s(v,n_)
+                           };
+          return (q_.is_rotate()) ? q_.rotate(pos) : pos;
         }
 
         double implicit(position_type const& p) const
@@ -331,12 +331,16 @@ namespace cafes
            auto r2 = e_/n_;
            auto r3 = 2./e_;
 
-           return std::pow( std::pow( std::abs((p[0]-center_[0])/shape_factors_[0]), r3)
-                          + std::pow( std::abs((p[1]-center_[1])/shape_factors_[1]), r3)
+           position_type pos = p-center_;
+           if (q_.is_rotate())
+            pos = q_.conj().rotate(pos);
+
+           return std::pow( std::pow( std::abs(pos[0]/shape_factors_[0]), r3)
+                          + std::pow( std::abs(pos[1]/shape_factors_[1]), r3)
                           , r2
                           )
 
-                + std::pow( std::abs((p[2]-center_[2])/shape_factors_[2]), r1);
+                + std::pow( std::abs(pos[2]/shape_factors_[2]), r1);
         }
 
         static double c(double w, double m)
-- 
2.43.0


From d861a99c10409dfc6088049f272206ad7d0bc51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:49 +0000
Subject: [PATCH 20/39] fix: find_fluid_points_insides computes the points from
 their index

---
 cafes/particle/particle.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/cafes/particle/particle.hpp b/cafes/particle/particle.hpp
index bb51c6d..7a6e956 100644
--- a/cafes/particle/particle.hpp
+++ b/cafes/particle/particle.hpp
@@ -114,12 +114,11 @@ namespace cafes
       std::vector<geometry::position<int, 2>> that;
       that.reserve(b.length());
 
-      double x, y;
       std::size_t ix, iy;
-      for(y=b.bottom_left[1]*h[1], iy=b.bottom_left[1]; iy<b.upper_right[1]; y+=h[1], ++iy)
-          for(x=b.bottom_left[0]*h[0], ix=b.bottom_left[0]; ix<b.upper_right[0]; x+=h[0], ++ix)
+      for(iy=b.bottom_left[1]; iy<b.upper_right[1]; ++iy)
+          for(ix=b.bottom_left[0]; ix<b.upper_right[0]; ++ix)
           {
-              cafes::geometry::position<double, 2> pt {x,y};
+              cafes::geometry::position<double, 2> pt {ix*h[0], iy*h[1]};
               if(p.contains(pt)) that.push_back({ix, iy});
           }
 
@@ -132,13 +131,12 @@ namespace cafes
     std::vector<geometry::position<int, 3>> that;
     that.reserve(b.length());
 
-    double x, y, z;
     std::size_t ix, iy, iz;
-    for(z=b.bottom_left[2]*h[2], iz=b.bottom_left[2]; iz<b.upper_right[2]; z+=h[2], ++iz)
-        for(y=b.bottom_left[1]*h[1], iy=b.bottom_left[1]; iy<b.upper_right[1]; y+=h[1], ++iy)
-            for(x=b.bottom_left[0]*h[0], ix=b.bottom_left[0]; ix<b.upper_right[0]; x+=h[0], ++ix)
+    for(iz=b.bottom_left[2]; iz<b.upper_right[2]; ++iz)
+        for(iy=b.bottom_left[1]; iy<b.upper_right[1]; ++iy)
+            for(ix=b.bottom_left[0]; ix<b.upper_right[0]; ++ix)
             {
-               cafes::geometry::position<double, 3> pt {x, y, z};
+               cafes::geometry::position<double, 3> pt {ix*h[0], iy*h[1], iz*h[2]};
                if(p.contains(pt)) that.push_back({ix, iy, iz});
             }   
 
-- 
2.43.0


From 549a269e1aed0e57d8bb132a60d8b4df77100371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 21/39] fix: surface points left of the domain are not in its
 first cells

---
 cafes/particle/particle.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/particle.hpp b/cafes/particle/particle.hpp
index 7a6e956..5c0e80f 100644
--- a/cafes/particle/particle.hpp
+++ b/cafes/particle/particle.hpp
@@ -58,6 +58,7 @@
 
 #include <array>
 #include <algorithm>
+#include <cmath>
 #include <initializer_list>
 #include <numeric>
 #include <particle/physics/force.hpp>
@@ -143,6 +144,16 @@ namespace cafes
     return that;
   }
 
+  // the cell of a point; it is not in the domain when an index is negative
+  template<std::size_t Dimensions>
+  auto find_cell( geometry::position<double, Dimensions> const& p, std::array<double, Dimensions> const& h)
+  {
+    geometry::position<int, Dimensions> cell;
+    for(std::size_t d=0; d<Dimensions; ++d)
+      cell[d] = static_cast<int>(std::floor(p[d]/h[d]));
+    return cell;
+  }
+
   template<std::size_t Dimensions>
   auto find_surf_points_insides( std::vector<geometry::position<double, Dimensions>> const& surf_p, cafes::geometry::box<int, Dimensions> const& b, std::array<double, Dimensions> const& h)
   {
@@ -150,7 +161,7 @@ namespace cafes
     that.reserve(surf_p.size());
 
     for(std::size_t i=0; i<surf_p.size(); ++i){
-        auto surf_pi = static_cast<geometry::position<int, Dimensions>>(surf_p[i]/h);
+        auto surf_pi = find_cell<Dimensions>(surf_p[i], h);
         if (cafes::geometry::point_inside(b, surf_pi)){
             that.push_back(std::make_pair(surf_pi, surf_p[i] - surf_pi*h));
         }
@@ -168,7 +179,7 @@ namespace cafes
     that.reserve(surf_p.size());
 
     for(std::size_t i=0; i<surf_p.size(); ++i){
-        auto surf_pi = static_cast<geometry::position<int, Dimensions>>(surf_p[i]/h);
+        auto surf_pi = find_cell<Dimensions>(surf_p[i], h);
         if (cafes::geometry::point_inside(b, surf_pi)){
             that.push_back(surf_p[i] - center);
         }
-- 
2.43.0


From 737653787499ebf032c50a5f0bed35f81a852b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:52 +0000
Subject: [PATCH 22/39] fix: forces are the mean of the control over its own
 points times the volume

---
 cafes/particle/forces_torques.hpp | 16 +++++++++++++---
 cafes/problem/ntod.hpp            |  1 -
 cafes/problem/sem.hpp             |  1 -
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/cafes/particle/forces_torques.hpp b/cafes/particle/forces_torques.hpp
index 29659f7..e899bde 100644
--- a/cafes/particle/forces_torques.hpp
+++ b/cafes/particle/forces_torques.hpp
@@ -67,13 +67,15 @@ namespace cafes
                                                geometry::box<int, Dimensions> const& box,
                                                std::vector<geometry::vector<double, Dimensions>>& forces,
                                                torque_type& torques,
-                                               std::vector<int> const& integration_points_size,
                                                std::array<double, Dimensions> const& h,
                                                bool compute_singularity)
     {
       PetscErrorCode ierr;
       PetscFunctionBeginUser;
 
+      // number of control points in each particle
+      std::vector<int> nb_points(particles.size(), 0);
+
       std::size_t icontrol = 0;
       PetscScalar const *pcontrol;
       ierr = VecGetArrayRead(control, &pcontrol);CHKERRQ(ierr);
@@ -87,6 +89,7 @@ namespace cafes
         if (geometry::intersect(box, pbox)){
           auto new_box = geometry::overlap_box(box, pbox);
           auto pts = find_fluid_points_insides(p, new_box, h);
+          nb_points[ipart] = pts.size();
           for(auto& ind: pts){
             std::array<double, Dimensions> g;
             for(std::size_t d=0; d<Dimensions; ++d){
@@ -96,14 +99,21 @@ namespace cafes
             set_torques(torques, ipart, p.center_, ind, g, h);
           }       
         }
-        forces[ipart] *= p.volume()/integration_points_size[ipart];
-        torques[ipart] *= p.volume()/integration_points_size[ipart]; 
       }
       ierr = VecRestoreArrayRead(control, &pcontrol);CHKERRQ(ierr);
 
+      MPI_Allreduce(MPI_IN_PLACE, nb_points.data(), nb_points.size(), MPI_INT, MPI_SUM, PETSC_COMM_WORLD);
       MPI_Allreduce(MPI_IN_PLACE, forces.data(), forces.size()*Dimensions, MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
       MPI_Allreduce(MPI_IN_PLACE, torques.data(), torques.size()*(Dimensions==2?1:3), MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
 
+      for(std::size_t ipart=0; ipart<particles.size(); ++ipart)
+      {
+        if (nb_points[ipart] == 0)
+          continue;
+        forces[ipart] *= particles[ipart].volume()/nb_points[ipart];
+        torques[ipart] *= particles[ipart].volume()/nb_points[ipart];
+      }
+
       if (compute_singularity)
       {
         std::vector<physics::force<Dimensions>> sing_forces;
diff --git a/cafes/problem/ntod.hpp b/cafes/problem/ntod.hpp
index 015dbd1..3525f2a 100644
--- a/cafes/problem/ntod.hpp
+++ b/cafes/problem/ntod.hpp
@@ -114,7 +114,6 @@ namespace cafes
                                          box,
                                          forces,
                                          torques,
-                                         ctx->num,
                                          h,
                                          ctx->compute_singularity);CHKERRQ(ierr);
 
diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index afb7e4c..fa0188c 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -253,7 +253,6 @@ namespace cafes
                                            box,
                                            forces,
                                            torques,
-                                           num_,
                                            h,
                                            false);CHKERRQ(ierr);
 
-- 
2.43.0


From c376952bae0d18eb3f55d1a20d5239cdf58cadc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:56 +0000
Subject: [PATCH 23/39] fix: the right-hand side of DtoN and SEM is the
 operator at the zero control

---
 cafes/problem/dton.hpp | 11 ++++++++++-
 cafes/problem/sem.hpp  |  8 +++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/cafes/problem/dton.hpp b/cafes/problem/dton.hpp
index 9ef3cc6..1c75fff 100644
--- a/cafes/problem/dton.hpp
+++ b/cafes/problem/dton.hpp
@@ -189,7 +189,16 @@ namespace cafes
                     // ctx->compute_singularity = false;
                 }
 
-                ierr = MatMult(A, sol, rhs);
+                // the right-hand side is the operator at the zero control, whatever
+                // control a previous solve has left in sol
+                Vec zero;
+                ierr = VecDuplicate(sol, &zero);
+                CHKERRQ(ierr);
+                ierr = VecSet(zero, 0.);
+                CHKERRQ(ierr);
+                ierr = MatMult(A, zero, rhs);
+                CHKERRQ(ierr);
+                ierr = VecDestroy(&zero);
                 CHKERRQ(ierr);
                 ierr = VecScale(rhs, -1.);
                 CHKERRQ(ierr);
diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index fa0188c..637d4de 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -161,7 +161,13 @@ namespace cafes
 
         ctx->compute_rhs = true;
 
-        ierr = MatMult(A, sol, rhs);CHKERRQ(ierr);
+        // the right-hand side is the operator at the zero control, whatever
+        // control a previous solve has left in sol
+        Vec zero;
+        ierr = VecDuplicate(sol, &zero);CHKERRQ(ierr);
+        ierr = VecSet(zero, 0.);CHKERRQ(ierr);
+        ierr = MatMult(A, zero, rhs);CHKERRQ(ierr);
+        ierr = VecDestroy(&zero);CHKERRQ(ierr);
         ierr = VecScale(rhs, -1.);CHKERRQ(ierr);
 
         PetscFunctionReturn(0);
-- 
2.43.0


From b7096a27b331152b299ea4255b8e94c682c1925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:14 +0000
Subject: [PATCH 24/39] fix: the singular velocity along the axis in 2D is the
 one its gradient is the gradient of

---
 cafes/particle/singularity/UandPNormal.hpp | 100 +++------------------
 1 file changed, 10 insertions(+), 90 deletions(-)

diff --git a/cafes/particle/singularity/UandPNormal.hpp b/cafes/particle/singularity/UandPNormal.hpp
index 623c57d..e7e5a74 100644
--- a/cafes/particle/singularity/UandPNormal.hpp
+++ b/cafes/particle/singularity/UandPNormal.hpp
@@ -82,100 +82,20 @@ namespace cafes
     //Attention : r cordonnee radial, donc z en 2D et donc z = x .....
     PetscScalar ux_sing_normalMvt2D(position2d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
     {
-      double mu = 1;
       double r  = X[1];
       double z  = X[0];
 
+      // place between the two surfaces, from 0 to 1
       double t1 = r * r;
-      double t2 = H * t1;
-      double t3 = M * a;
-      double t4 = z * z;
-      double t5 = t3 * t4;
-      double t8 = a * a;
-      double t9 = t8 * M;
-      double t10 = t9 * z;
-      double t13 = t1 * t1;
-      double t14 = H * t13;
-      double t15 = M * M;
-      double t16 = t15 * a;
-      double t17 = t16 * z;
-      double t20 = H * H;
-      double t21 = t20 * t13;
-      double t22 = t3 * z;
-      double t31 = t15 * t1;
-      double t32 = a * t4;
-      double t35 = t13 * t1;
-      double t36 = H * t35;
-      double t37 = t15 * M;
-      double t41 = t20 * t1;
-      double t45 = t20 * H;
-      double t46 = t45 * t13;
-      double t51 = t45 * t35;
-      double t55 = t20 * t35;
-      double t59 = t15 * t15;
-      double t61 = t13 * t13;
-      double t64 = t8 * t45;
-      double t67 = t20 * t20;
-      double t68 = a * t67;
-      double t71 = t8 * a;
-      double t74 = t15 * t61;
-      double t89 = -24 * t51 * M * z - 48 * t55 * t15 * z - 5 * H * t59 * t61 + 96 * t64 * t13 + 8 * t68 * t35 - 32 * t41 * t71 + 4 * t74 * t45 - 4 * t37 * t61 * t20 + 5 * M * t61 * t67 - 32 * t71 * t15 * t1 - 24 * t8 * t37 * t13;
-      double t94 = t4 * z;
-      double t99 = H * a;
-      double t100 = t99 * t94;
-      double t102 = t3 * t94;
-      double t109 = H * t8;
-      double t110 = t109 * t4;
-      double t112 = t9 * t4;
-      double t114 = t8 * t8;
-      double t118 = t67 * H;
-      double t126 = a * t20;
-      double t133 = M * t1;
-      double t136 = t15 * t13;
-      double t139 = t37 * t35;
-      double t147 = t118 * t61 - 16 * M * t114 - t59 * M * t61 + 56 * t3 * t51 + 24 * t126 * t35 * t15 + 48 * t21 * t9 - 64 * H * t71 * t133 - 72 * t109 * t136 - 32 * t99 * t139 + 320 * t2 * M * t94 - 384 * t41 * t32;
-      double t155 = pow((2 * a + t133 + t2), 2);
-      double t156 = t155 * t155;
-      double t158 = 1. / (H + M) / t156;
-      double t159 = chiTrunc(r, l, eps);
-      double t162 = d2chiTrunc(r, l, eps);
-      double t163 = t162 * t13;
-      double t166 = t61 * t1;
-      double t167 = t162 * t166;
-      double t168 = t3 * t45;
-      double t173 = t162 * t35;
-      double t174 = H * M;
-      double t175 = t174 * t94;
-      double t186 = t162 * t61;
-      double t212 = t45 * t61;
-      double t226 = 128 * t163 * t102 - 56 * t167 * t168 + 128 * t163 * t100 + 64 * t173 * t175 - 144 * t173 * t16 * t4 - 36 * t167 * t16 * t20 - 288 * t163 * t112 - 72 * t186 * t9 * t20 + 48 * t173 * t126 * t4 - 96 * t163 * t110 + 24 * t186 * t20 * M * t4 - 24 * t186 * H * t15 * t4 - 192 * t14 * t162 * t71 * z - 24 * H * t166 * t162 * t37 * z - 48 * t212 * t162 * a * z - 192 * t55 * t162 * t8 * z - 24 * t45 * t166 * t162 * M * z;
-      double t232 = dchiTrunc(r, l, eps);
-      double t233 = t232 * t1;
-      double t236 = t232 * t13;
-      double t241 = t232 * t61;
-      double t244 = t232 * t8;
-      double t245 = t244 * t4;
-      double t250 = t232 * t166;
-      double t251 = t67 * M;
-      double t256 = t20 * t94;
-      double t259 = t15 * t94;
-      double t262 = t15 * t45;
-      double t265 = t232 * t4;
-      double t274 = t232 * t71;
-      double t280 = t162 * t61 * t13;
-      double t283 = -48 * t20 * t166 * t162 * t15 * z - 192 * t233 * t100 - 224 * t236 * t175 - 192 * t233 * t102 - 12 * t241 * t168 + 432 * t2 * t245 + 6 * t241 * t68 + 5 * t250 * t251 - 52 * t244 * t51 - 112 * t236 * t256 - 112 * t236 * t259 + 7 * t250 * t262 - 60 * t51 * t265 + 60 * t139 * t265 + 3 * t37 * t166 * t232 * t20 - 120 * t274 * t21 - 20 * t167 * t68 - 10 * t280 * t251;
-      double t285 = t162 * t1;
-      double t323 = H * t61;
-      double t330 = 128 * t285 * t8 * t94 - 56 * t186 * t64 + 32 * t173 * t259 - 14 * t280 * t262 + 32 * t173 * t256 - 192 * t285 * t71 * t4 - 48 * t173 * t71 * t20 - 24 * t186 * t37 * t4 - 6 * t280 * t37 * t20 + 24 * t186 * t45 * t4 + 64 * t244 * t94 - 96 * t274 * t4 + t250 * t118 - 2 * t280 * t118 - 96 * t173 * a * t174 * t4 - 144 * t323 * t162 * t17 - 288 * t36 * t162 * t10;
-      double t331 = t20 * t61;
-      double t339 = t244 * z;
-      double t343 = t232 * a;
-      double t344 = t343 * z;
-      double t350 = t343 * t4;
-      double t353 = t232 * t15;
-      double t357 = t232 * M;
-      double t389 = -192 * t331 * t162 * t22 + 336 * t14 * t232 * t5 - 144 * t14 * M * t339 + 72 * t36 * t15 * t344 + 192 * t55 * t232 * t22 + 120 * t21 * t350 + 60 * t36 * t353 * t4 - 60 * t55 * t357 * t4 + 144 * t133 * t245 - 108 * M * t35 * t244 * t20 + 216 * t136 * t350 - 18 * t74 * t343 * t20 + 36 * t323 * t37 * t232 * z + 96 * t21 * t339 + 120 * t51 * t344 + 72 * t331 * t353 * z + 36 * t212 * t357 * z - 288 * t2 * t274 * z;
-      return U * (-480 * t2 * t5 + 288 * t2 * t10 + 96 * t14 * t17 - 48 * t21 * t22 + 72 * t21 * M * t4 - 72 * t14 * t15 * t4 - 96 * t31 * t32 - 24 * t36 * t37 * z + 288 * t41 * t8 * z - 144 * t46 * a * z + t89 - 8 * a * t59 * t35 + 160 * t41 * t94 + 160 * t31 * t94 - 64 * t100 - 64 * t102 + 72 * t46 * t4 - 72 * t37 * t13 * t4 + 96 * t110 + 96 * t112 - 16 * H * t114 + t147) * t158 * t159 / 2 + U * (t226 + t283 + t330 + t389) * t158 / 2;
+      double t2 = 2 * a + M * t1 + H * t1;
+      double t3 = (H * t1 + 2 * z) / t2;
+      // -U r t4 chi is the flux of uz_sing_normalMvt2D from the first surface to X:
+      // ux_sing_normalMvt2D is what makes the velocity divergence free
+      double t4 = t3 * t3 * (3 - 2 * t3);
+      double t5 = 12 * t1 * t3 * (1 - t3) * (H - (H + M) * t3) / t2;
+      double t6 = chiTrunc(r, l, eps);
+      double t7 = dchiTrunc(r, l, eps);
+      return U * ((t4 - .5 + t5) * t6 + 2 * t1 * t4 * t7);
     }
 
     PetscScalar dzuz_sing_normalMvt2D(position2d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
-- 
2.43.0


From eae3dc129e2fc82421a9138c5877ee0314753d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:14 +0000
Subject: [PATCH 25/39] fix: the singular velocity gradient in 3D has a trace
 on the axis

---
 cafes/particle/singularity/UandPNormal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/singularity/UandPNormal.hpp b/cafes/particle/singularity/UandPNormal.hpp
index e7e5a74..192ac6c 100644
--- a/cafes/particle/singularity/UandPNormal.hpp
+++ b/cafes/particle/singularity/UandPNormal.hpp
@@ -659,7 +659,7 @@ namespace cafes
 	return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[0]*X[0]/r2 
 	  +      ur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[1]*X[1]/r2/r;
       else
-        return 0;
+        return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param);
     }
 
     PetscScalar dyux_sing_normalMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
@@ -706,7 +706,7 @@ namespace cafes
 	return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[1]*X[1]/r2 
 	  +      ur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[0]*X[0]/r2/r;
       else
-        return 0;
+        return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param);
     }
 
     PetscScalar dzuy_sing_normalMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
-- 
2.43.0


From ba928a91b20e58c711b6cd8fa448ce2309278253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:14 +0000
Subject: [PATCH 26/39] fix: the frame of a singularity in 3D is orthonormal
 and takes the velocity of the second particle from the first

---
 cafes/particle/singularity/singularity.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/cafes/particle/singularity/singularity.hpp b/cafes/particle/singularity/singularity.hpp
index b3c6929..9de78eb 100644
--- a/cafes/particle/singularity/singularity.hpp
+++ b/cafes/particle/singularity/singularity.hpp
@@ -216,26 +216,27 @@ namespace cafes
       {
         base_[2] = position_diff<Shape, Dimensions>(p2, p1)/distance<Shape, Dimensions>(p1, p2);
 
-        auto vel_diff = velocity_diff<Shape, Dimensions>(p1, p2);
+        auto vel_diff = velocity_diff<Shape, Dimensions>(p2, p1);
         vector_space_[2] = std::inner_product(vel_diff.begin(), vel_diff.end(), base_[2].begin(), 0.);
 
         auto vel_norm = std::inner_product(vel_diff.begin(), vel_diff.end(), vel_diff.begin(), 0.);
 
-        if (vector_space_[2]*vector_space_[2] == vel_norm)
+        // the part of the relative velocity that is orthogonal to the axis
+        for(std::size_t d=0; d<3; ++d)
+          base_[0][d] = vel_diff[d] - vector_space_[2]*base_[2][d];
+
+        auto norm = std::inner_product(base_[0].begin(), base_[0].end(), base_[0].begin(), 0.);
+
+        // there is none: any orthogonal direction
+        if (norm <= 1e-12*vel_norm)
         {
           base_[0][0]    = -sign(base_[2][2])*base_[2][2]
                            -sign(base_[2][1])*base_[2][1];
           base_[0][1]    =  sign(base_[2][1])*base_[2][0];
-          base_[0][2]    =  sign(base_[2][2])*base_[0][0];
-        }
-        else
-        {
-          // Check the formula to have dU - (dU.n)n ?
-          for(std::size_t d=0; d<3; ++d)
-            base_[0][d] = vel_diff[d]*(1 - base_[2][d]);
+          base_[0][2]    =  sign(base_[2][2])*base_[2][0];
+          norm = std::inner_product(base_[0].begin(), base_[0].end(), base_[0].begin(), 0.);
         }
 
-        auto norm = std::inner_product(base_[0].begin(), base_[0].end(), base_[0].begin(), 0.);
         base_[0] /= std::sqrt(norm);
 
         base_[1] = geometry::cross_product(base_[2], base_[0]);
-- 
2.43.0


From 9d265b0b25985ea88b67eda3e76c4b5a07140d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:14 +0000
Subject: [PATCH 27/39] fix: what a process adds to its neighbours' nodes of
 the last solution is not lost

---
 cafes/particle/singularity/add_singularity.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 4799d7f..76b09e5 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -604,7 +604,7 @@ namespace cafes
             auto sol = petsc::petsc_vec<Dimensions>(ctx.problem.ctx->dm, vsol,
                                                     0, false);
 
-            ierr = sol.global_to_local(INSERT_VALUES);
+            ierr = sol.fill(0.);
             CHKERRQ(ierr);
 
             // Loop on particles couples
@@ -635,7 +635,7 @@ namespace cafes
                 }
             }
 
-            ierr = sol.local_to_global(INSERT_VALUES);
+            ierr = sol.local_to_global(ADD_VALUES);
             CHKERRQ(ierr);
 
             PetscFunctionReturn(0);
-- 
2.43.0


From 1ba7940f947395b69eac91fd1f343dbcf0f7c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:14 +0000
Subject: [PATCH 28/39] fix: singular forces in 2D are computed, in the frame
 of the pair

---
 .../particle/singularity/add_singularity.hpp  | 62 ++++++++++++-------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 76b09e5..78a4462 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -652,18 +652,20 @@ namespace cafes
             double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
 
-            for (std::size_t i = -N; i < N; ++i)
+            int n = N;
+            for (int i = -n; i < n; ++i)
             {
-                double cos_t = std::cos(i * theta / N);
-                double sin_t = std::sin(i * theta / N);
+                double cos_t = std::cos(i * theta / n);
+                double sin_t = std::sin(i * theta / n);
                 std::array<std::array<double, 2>, 2> sigma;
 
                 position_type pos{(cos_t - 1.) / sing.H1_, sin_t / sing.H1_};
                 position_type normal{cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -672,9 +674,13 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
-                            theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
+                        force_ref[d1] +=
+                            theta / n / sing.H1_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -690,18 +696,20 @@ namespace cafes
             double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
 
-            for (std::size_t i = -N; i < N; ++i)
+            int n = N;
+            for (int i = -n; i < n; ++i)
             {
-                double cos_t = std::cos(i * theta / N);
-                double sin_t = std::sin(i * theta / N);
+                double cos_t = std::cos(i * theta / n);
+                double sin_t = std::sin(i * theta / n);
                 std::array<std::array<double, 2>, 2> sigma;
 
                 position_type pos{(cos_t - 1.) / sing.H1_, sin_t / sing.H1_};
                 position_type normal{cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -710,9 +718,13 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
-                            theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
+                        force_ref[d1] +=
+                            theta / n / sing.H1_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -725,21 +737,25 @@ namespace cafes
             using position_type = geometry::position<double, 2>;
 
             double mu = 1.;
-            double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
+            double theta = std::asin(sing.cutoff_dist_ * sing.H2_);
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
 
-            for (std::size_t i = -N; i < N; ++i)
+            int n = N;
+            for (int i = -n; i < n; ++i)
             {
-                double cos_t = std::cos(i * theta / N);
-                double sin_t = std::sin(i * theta / N);
+                double cos_t = std::cos(i * theta / n);
+                double sin_t = std::sin(i * theta / n);
                 std::array<std::array<double, 2>, 2> sigma;
 
-                position_type pos{(cos_t - 1.) / sing.H1_, sin_t / sing.H1_};
-                position_type normal{cos_t, sin_t};
+                position_type pos{sing.contact_length_ +
+                                      (1. - cos_t) / sing.H2_,
+                                  sin_t / sing.H2_};
+                position_type normal{-cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -748,9 +764,13 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
-                            theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
+                        force_ref[d1] +=
+                            theta / n / sing.H2_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
-- 
2.43.0


From 9840efae11252f24fd782521a3f6fb5383635fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:14 +0000
Subject: [PATCH 29/39] fix: singular forces in 3D count every point once

---
 cafes/particle/singularity/add_singularity.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 78a4462..aae05a9 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -824,12 +824,12 @@ namespace cafes
                     for (std::size_t d1 = 0; d1 < 3; ++d1)
                         for (std::size_t d2 = 0; d2 < 3; ++d2)
                             force_ref[d1] += coef * sigma[d1][d2] * normal[d2];
-
-                    for (std::size_t d1 = 0; d1 < 3; ++d1)
-                        for (std::size_t d2 = 0; d2 < 3; ++d2)
-                            force[d1] += sing.base_[d2][d1] * force_ref[d2];
                 }
             }
+
+            for (std::size_t d1 = 0; d1 < 3; ++d1)
+                for (std::size_t d2 = 0; d2 < 3; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -883,12 +883,12 @@ namespace cafes
                     for (std::size_t d1 = 0; d1 < 3; ++d1)
                         for (std::size_t d2 = 0; d2 < 3; ++d2)
                             force_ref[d1] += coef * sigma[d1][d2] * normal[d2];
-
-                    for (std::size_t d1 = 0; d1 < 3; ++d1)
-                        for (std::size_t d2 = 0; d2 < 3; ++d2)
-                            force[d1] += sing.base_[d2][d1] * force_ref[d2];
                 }
             }
+
+            for (std::size_t d1 = 0; d1 < 3; ++d1)
+                for (std::size_t d2 = 0; d2 < 3; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
-- 
2.43.0


From a81a52fecca616bb524a62254d4fc2715c2912d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:14 +0000
Subject: [PATCH 30/39] fix: the fourth derivative of the cut-off

---
 cafes/particle/singularity/truncation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/singularity/truncation.hpp b/cafes/particle/singularity/truncation.hpp
index 67408db..28fc540 100644
--- a/cafes/particle/singularity/truncation.hpp
+++ b/cafes/particle/singularity/truncation.hpp
@@ -99,7 +99,7 @@ namespace cafes
       X2 = X*X;
       X4 = X2*X2;
 
-      return 15120/128.0*(7*X4-10*X2+3);
+      return 15120/128.0*(7*X4-10*X2+3)*X;
     }
 
    PetscScalar chiTrunc(PetscReal X, PetscReal l, PetscReal eps)
-- 
2.43.0


From 3c1a64332b035db924712a20a26f83012ec6a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:14 +0000
Subject: [PATCH 31/39] fix: the cut-off is one, with zero derivatives, before
 it starts

---
 cafes/particle/singularity/truncation.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cafes/particle/singularity/truncation.hpp b/cafes/particle/singularity/truncation.hpp
index 28fc540..86541ea 100644
--- a/cafes/particle/singularity/truncation.hpp
+++ b/cafes/particle/singularity/truncation.hpp
@@ -108,7 +108,7 @@ namespace cafes
 
      double X2 = X*X;
 
-     if(0<=X2<l-eps)
+     if(X2<l-eps)
        return 1;
      else 
        if(l-eps<=X2 && X2<l+eps)
@@ -124,8 +124,8 @@ namespace cafes
      double X2 = X*X;
      X = sqrt(X2); //on veut la norme
 
-     if(0<=X2<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -X/eps*dalphaTrunc((X2-l)/eps) ;
        return - dalphaTrunc((X2-l)/eps)/eps/2.;
@@ -140,8 +140,8 @@ namespace cafes
      double X2 = X*X;
      //X = sqrt(X2); //on veut la norme
 
-     if(0<=X<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -2*X2/eps/eps*d2alphaTrunc((X2-l)/eps) - dalphaTrunc((X2-l)/eps)/eps;
        return - d2alphaTrunc((X2-l)/eps)/eps/eps/2.;
@@ -156,8 +156,8 @@ namespace cafes
      double X2 = X*X;
      //X = sqrt(X2); //on veut la norme
 
-     if(0<=X<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -4*X2*X/eps/eps/eps*d3alphaTrunc((X2-l)/eps) - 6*X/eps/eps*d2alphaTrunc((X2-l)/eps);
        return - d3alphaTrunc((X2-l)/eps)/eps/eps/eps/2.;
@@ -171,8 +171,8 @@ namespace cafes
      double X2 = X*X;
      //X = sqrt(X2); //on veut la norme
 
-     if(0<=X<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -4*X2*X/eps/eps/eps*d3alphaTrunc((X2-l)/eps) - 6*X/eps/eps*d2alphaTrunc((X2-l)/eps);
        return - d4alphaTrunc((X2-l)/eps)/eps/eps/eps/eps/2.;
-- 
2.43.0


From 6846390d35e5fcfa3ee1dac73471805aa5092b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:26 +0000
Subject: [PATCH 32/39] fix: the operator DtoN inverts has no singular
 right-hand side of its own

---
 cafes/problem/dton.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cafes/problem/dton.hpp b/cafes/problem/dton.hpp
index 1c75fff..e50b1bf 100644
--- a/cafes/problem/dton.hpp
+++ b/cafes/problem/dton.hpp
@@ -331,8 +331,7 @@ namespace cafes
                 {
                     ctx->compute_rhs = false;
                     ctx->add_rigid_motion = false;
-                    // ctx->compute_singularity = false;
-                    ctx->compute_singularity = use_sing;
+                    ctx->compute_singularity = false;
                 }
 
                 ierr = KSPSolve(ksp, rhs, sol);
-- 
2.43.0


From 5bda8d809d60e111fc31f83e7d4c2200ebc885c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:32 +0000
Subject: [PATCH 33/39] fix: the singularity of two particles is added between
 them, and not behind them too

---
 cafes/particle/singularity/add_singularity.hpp | 15 ++++++++++-----
 cafes/particle/singularity/singularity.hpp     |  7 +++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index aae05a9..d63ea41 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -93,8 +93,9 @@ namespace cafes
                                 auto pos_ref_part =
                                     sing.get_pos_in_part_ref(pts);
 
-                                if (std::abs(pos_ref_part[1]) <=
-                                    sing.cutoff_dist_)
+                                if (sing.is_between(pos_ref_part) &&
+                                    std::abs(pos_ref_part[1]) <=
+                                        sing.cutoff_dist_)
                                 {
                                     position_type pts_loc = {is * hs[0],
                                                              js * hs[1]};
@@ -234,7 +235,10 @@ namespace cafes
                                                          j * h[1] + js * hs[1],
                                                          k * h[2] + ks * hs[2]};
 
-                                    if (!p1.contains(pts) && !p2.contains(pts))
+                                    if (!p1.contains(pts) &&
+                                        !p2.contains(pts) &&
+                                        sing.is_between(
+                                            sing.get_pos_in_part_ref(pts)))
                                     {
                                         position_type pts_loc = {
                                             is * hs[0], js * hs[1], ks * hs[2]};
@@ -461,8 +465,9 @@ namespace cafes
                                 auto pos_ref_part =
                                     sing.get_pos_in_part_ref(pts);
 
-                                if (std::abs(pos_ref_part[1]) <=
-                                    sing.cutoff_dist_)
+                                if (sing.is_between(pos_ref_part) &&
+                                    std::abs(pos_ref_part[1]) <=
+                                        sing.cutoff_dist_)
                                 {
                                     position_type pts_loc = {is * hs[0],
                                                              js * hs[1]};
diff --git a/cafes/particle/singularity/singularity.hpp b/cafes/particle/singularity/singularity.hpp
index 9de78eb..a82f094 100644
--- a/cafes/particle/singularity/singularity.hpp
+++ b/cafes/particle/singularity/singularity.hpp
@@ -267,6 +267,13 @@ namespace cafes
         return pos_ref_part;
       }
 
+      // between the centers of the two particles, and not behind one of them
+      bool is_between(position_type const& pos_ref)
+      {
+        auto n = pos_ref[2*Dimensions-4];
+        return -1./H1_ <= n && n <= contact_length_ + 1./H2_;
+      }
+
       auto get_pos_from_part_ref(position_type const& pos_ref)
       {
         position_type pos;
-- 
2.43.0


From 32957b40a676e655201c53a5fc3347282ed83dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:27 +0000
Subject: [PATCH 34/39] fix: on the axis the axial velocity of sliding spheres
 has its derivative

---
 cafes/particle/singularity/UandPTang.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/singularity/UandPTang.hpp b/cafes/particle/singularity/UandPTang.hpp
index 08851ea..9477bc9 100644
--- a/cafes/particle/singularity/UandPTang.hpp
+++ b/cafes/particle/singularity/UandPTang.hpp
@@ -1453,7 +1453,7 @@ namespace cafes
         return druz_sing_tangMvt3D(X, H,  M, d, U, l, eps, param)*X[0]/r
           -    dtuz_sing_tangMvt3D(X, H,  M, d, U, l, eps, param)*X[1]/r2;
       else
-        return 0;
+        return druz_sing_tangMvt3D(X, H,  M, d, U, l, eps, param);
     }
 
     PetscScalar dyuz_sing_tangMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal d, double U, PetscReal l, PetscReal eps, PetscReal* param  )
-- 
2.43.0


From 316cb9dbf120050becd604216d339d45c3f02c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:27 +0000
Subject: [PATCH 35/39] fix: particles saved without forces keep their third
 coordinate

---
 cafes/io/vtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/io/vtk.hpp b/cafes/io/vtk.hpp
index 9031019..6a36f98 100644
--- a/cafes/io/vtk.hpp
+++ b/cafes/io/vtk.hpp
@@ -728,7 +728,7 @@ namespace cafes
 
         std::size_t i = 0;
         for(auto& p: particles){
-          spheresPoints->SetPoint(i, p.center_[0], p.center_[1], 0.);
+          spheresPoints->SetPoint(i, p.center_[0], p.center_[1], p.center_.dimensions > 2 ? p.center_[2] : 0.);
           shperesRadius->SetValue(i, p.shape_factors_[0]);
           i++;
         }
-- 
2.43.0


From 54f1b4c517d85974f8158065eb586fcaf045be4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:08 +0000
Subject: [PATCH 36/39] fix: the triangulation of points of the plane has all
 its triangles, and no others

---
 cafes/particle/geometry/triangulation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/triangulation.hpp b/cafes/particle/geometry/triangulation.hpp
index 319d2b4..131e46d 100644
--- a/cafes/particle/geometry/triangulation.hpp
+++ b/cafes/particle/geometry/triangulation.hpp
@@ -60,7 +60,7 @@ namespace cafes
 
       std::size_t ind = 0;
       for(auto &f: qhull.facetList()){
-        if (f.isTriCoplanar()){
+        if (!f.isUpperDelaunay()){
           orgQhull::QhullVertexSet ps= f.vertices();
 
           orgQhull::QhullVertexSetIterator i = ps;
@@ -73,6 +73,7 @@ namespace cafes
           ind++;
         }
       }
+      triangles.resize(ind);
       return triangles;
     }
 
-- 
2.43.0


From b4a39a5337ad22f796dd1d446cec9168868aadd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:48 +0000
Subject: [PATCH 37/39] fix: problems without particles have no lubrication
 field

---
 cafes/particle/singularity/add_singularity.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index d63ea41..ee9ff7a 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -551,7 +551,7 @@ namespace cafes
             // ctx.problem.rhs, 1, false); ierr = solp.fill(0.);CHKERRQ(ierr);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -613,7 +613,7 @@ namespace cafes
             CHKERRQ(ierr);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -911,7 +911,7 @@ namespace cafes
                 ctx.particles[ipart].force_.fill(0.);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -952,7 +952,7 @@ namespace cafes
                 forces[ipart].fill(0.);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < particles.size() - 1; ++ipart)
+            for (std::size_t ipart = 0; ipart + 1 < particles.size(); ++ipart)
             {
                 auto p1 = particles[ipart];
                 for (std::size_t jpart = ipart + 1; jpart < particles.size();
@@ -993,7 +993,7 @@ namespace cafes
             auto &h = ctx.problem.ctx->h;
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -1044,7 +1044,7 @@ namespace cafes
             auto &h = ctx.problem.ctx->h;
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
-- 
2.43.0


From 4c06373e4c1028f9c90b55845892977c54317663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:46 +0000
Subject: [PATCH 38/39] fix: the sizes given to PETSc for the velocity mesh are
 freed

---
 cafes/fem/mesh.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cafes/fem/mesh.hpp b/cafes/fem/mesh.hpp
index 8b8539a..6370086 100644
--- a/cafes/fem/mesh.hpp
+++ b/cafes/fem/mesh.hpp
@@ -234,7 +234,8 @@ namespace cafes
 
         ierr = DMDestroy(&DAPressure);CHKERRQ(ierr);
         ierr = DMDestroy(&DAVelocity);CHKERRQ(ierr);
-        ierr = PetscFree2(lxu, lyu);CHKERRQ(ierr);
+        ierr = PetscFree(lxu);CHKERRQ(ierr);
+        ierr = PetscFree(lyu);CHKERRQ(ierr);
 
         PetscFunctionReturn(0);
     }
@@ -304,7 +305,9 @@ namespace cafes
 
         ierr = DMDestroy(&DAPressure);CHKERRQ(ierr);
         ierr = DMDestroy(&DAVelocity);CHKERRQ(ierr);
-        ierr = PetscFree3(lxu, lyu, lzu);CHKERRQ(ierr);
+        ierr = PetscFree(lxu);CHKERRQ(ierr);
+        ierr = PetscFree(lyu);CHKERRQ(ierr);
+        ierr = PetscFree(lzu);CHKERRQ(ierr);
 
         PetscFunctionReturn(0);
     }
-- 
2.43.0


From 9cde93c799c32b4ee295cfd9da650ee02636e900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:46 +0000
Subject: [PATCH 39/39] fix: refining a solution keeps no meshes behind

---
 cafes/posttraitement/interpolation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cafes/posttraitement/interpolation.hpp b/cafes/posttraitement/interpolation.hpp
index b504319..9215279 100644
--- a/cafes/posttraitement/interpolation.hpp
+++ b/cafes/posttraitement/interpolation.hpp
@@ -78,8 +78,6 @@ namespace cafes
       PetscInt localsize;
 
     	DMCompositeGetEntries(dm, &dav, &dap);
-      DMClone(dav, &dav_refine);
-      DMClone(dap, &dap_refine);
     	ierr = DMDASetRefinementFactor(dav, refine[0], refine[1], PETSC_NULL);CHKERRQ(ierr);
       ierr = DMRefine(dav, PETSC_COMM_WORLD, &dav_refine);
       ierr = DMDASetRefinementFactor(dap, refine[0], refine[1], PETSC_NULL);CHKERRQ(ierr);
@@ -133,6 +131,10 @@ namespace cafes
       auto boxp = fem::get_DM_bounds<Dimensions>(dap_refine, false);
       algorithm::iterate(boxp, kernel(solp, solp_ref, refine, h));
 
+      // dm_refine keeps its own references
+      ierr = DMDestroy(&dav_refine);CHKERRQ(ierr);
+      ierr = DMDestroy(&dap_refine);CHKERRQ(ierr);
+
       PetscFunctionReturn(0);
     }
 
-- 
2.43.0

