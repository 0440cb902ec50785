From a1f877318c8a8c879d9931fa940d71fc2a23efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:05 +0000
Subject: [PATCH 01/63] fix: close the neutron balance in the axial PMB cell
 update

The update used the wrong plane's height and an inconsistent axial removal
term, so streaming plus removal did not equal the source unless the cell
height was one.
---
 src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp b/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
index c6a5afc..9ed4951 100644
--- a/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
+++ b/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
@@ -42,8 +42,6 @@ public:
                     real_t xstr, int i, const ThreadState &t_state) const
     {
         int ix    = i % mesh_.nx();
-        int iz    = i % mesh_.nx() * mesh_.ny();
-        real_t dz = mesh_.dz(iz);
         int ia = t_state.macroplane * this->plane_size_ + i % this->plane_size_;
         real_t tx = t_state.ox / mesh_.dx(ix);
 
@@ -56,11 +54,11 @@ public:
         real_t gx = 0.5;//ax * b;
         real_t gy = 0.5;//ay * b;
 
-        real_t psi = q - (dz * t_state.oz * q) / (2.0 * t_state.tz + xstr) +
+        real_t psi = q - (t_state.tz * q) / (2.0 * t_state.tz + xstr) +
                      2.0 * (tx * flux_x + t_state.ty * flux_y) +
                      t_state.tz * flux_z;
         psi /= tx / gx + t_state.ty / gy +
-               (t_state.oz * t_state.oz) / (t_state.tz + 0.5 * xstr) + xstr;
+               (t_state.tz * t_state.tz) / (t_state.tz + 0.5 * xstr) + xstr;
 
         flux_x = psi / gx - flux_x;
         flux_y = psi / gy - flux_y;
-- 
2.43.0


From 126883c58938839dc6f1770831f3da2bfd9c05d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:41 +0000
Subject: [PATCH 02/63] fix: keep updating the remaining faces after an empty
 boundary face

BoundaryCondition::update stopped at the first face without any boundary
values, so the faces that follow it were never updated.
---
 src/core/boundary_condition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/boundary_condition.cpp b/src/core/boundary_condition.cpp
index 5d0ad33..0026fe5 100644
--- a/src/core/boundary_condition.cpp
+++ b/src/core/boundary_condition.cpp
@@ -161,7 +161,7 @@ void BoundaryCondition::update(int group, int angle,
         int size    = size_[angle][(int)n];
         int iang_in = ang_quad_.reflect(angle, n);
         if (size == 0) {
-            break;
+            continue;
         }
         assert(size == out.size_[iang_in][(int)n]);
         assert(iang_in < n_angle_);
-- 
2.43.0


From a66e30740e2541ac8014085158be267b149c25a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:02 +0000
Subject: [PATCH 03/63] fix: index the external source by group, then region

The file is required to hold (group, region) data, but the source was
filled with the indices swapped.
---
 src/core/source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source.cpp b/src/core/source.cpp
index 7900804..d0f577b 100644
--- a/src/core/source.cpp
+++ b/src/core/source.cpp
@@ -42,7 +42,7 @@ void Source::initialize_group(int ig)
 {
     if (has_external_) {
         for (int ireg = 0; ireg < (int)n_reg_; ireg++) {
-            source_1g_[ireg] = external_source_(ireg, ig);
+            source_1g_[ireg] = external_source_(ig, ireg);
         }
     }
     else {
-- 
2.43.0


From 3b969025c114955dec1eace6a35537a288ddd7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:02 +0000
Subject: [PATCH 04/63] fix: reject a missing or negative iteration limit of
 the fixed-source solver

The limit was tested after conversion to an unsigned type, so a missing or
negative value became a huge limit instead of being refused.
---
 src/solvers/fixed_source_solver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solvers/fixed_source_solver.cpp b/src/solvers/fixed_source_solver.cpp
index cd47f95..78ce1e3 100644
--- a/src/solvers/fixed_source_solver.cpp
+++ b/src/solvers/fixed_source_solver.cpp
@@ -42,11 +42,12 @@ FixedSourceSolver::FixedSourceSolver(const pugi::xml_node &input,
                 << std::endl;
 
         // Iteration limit
-        max_iter_ = input.attribute("max_iter").as_int(-1);
-        if (max_iter_ <= 0) {
+        int max_iter = input.attribute("max_iter").as_int(-1);
+        if (max_iter <= 0) {
             throw EXCEPT("Failed to parse reasonable number of maximum "
                          "iterations.");
         }
+        max_iter_ = max_iter;
 
         // Convergence criterion
         flux_tol_ = input.attribute("flux_tol").as_float(-1.0);
-- 
2.43.0


From a6b92cdae69ef6e4e4667699a2261f4216d604d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:02 +0000
Subject: [PATCH 05/63] fix: measure the fission source error over the whole
 fission source

The source of a coupled sweeper is longer than its number of exposed regions,
so part of it did not take part in the convergence test.
---
 src/solvers/eigen_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/eigen_solver.cpp b/src/solvers/eigen_solver.cpp
index 89e9f1c..b71884e 100644
--- a/src/solvers/eigen_solver.cpp
+++ b/src/solvers/eigen_solver.cpp
@@ -177,7 +177,7 @@ void EigenSolver::solve()
                         fission_source_prev_.end());
 
         real_t efis = 0.0;
-        for (int i = 0; i < (int)fss_.sweeper()->n_reg(); i++) {
+        for (int i = 0; i < (int)fission_source_.size(); i++) {
             real_t e = (fission_source_(i) - fission_source_prev_(i));
             efis += e * e;
         }
-- 
2.43.0


From 296f4e9c7484bf5a400afe439c6c191c3ce71025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:24 +0000
Subject: [PATCH 06/63] fix: use the right weights for level-symmetric
 quadratures above S10

The table that maps directions to weights had no entries for S12, so S12 and
S14 used the map of a larger order and S16 read past the offset table.  Orders
below two are refused as well; they indexed the tables with a negative index.
---
 src/core/level_symmetric.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/level_symmetric.hpp b/src/core/level_symmetric.hpp
index c81404a..82cad4c 100644
--- a/src/core/level_symmetric.hpp
+++ b/src/core/level_symmetric.hpp
@@ -41,19 +41,23 @@ real_t w_unique[] = {
 int w_offset[] = {0, 1, 2, 4, 7, 11, 16, 23};
 
 int w_map[] = {1, 1, 1, 1, 1, 2, 2, 1, 2, 1, 1, 2, 2, 2, 3, 2, 1, 2, 2, 1,
-               1, 2, 2, 3, 4, 3, 2, 4, 4, 2, 1, 2, 3, 2, 1, 1, 2, 2, 3, 5,
+               1, 2, 2, 3, 4, 3, 2, 4, 4, 2, 1, 2, 3, 2, 1,
+               // S12
+               1, 2, 2, 3, 4, 3, 3, 5, 5, 3, 2, 4, 5, 4, 2, 1, 2, 3, 3, 2, 1,
+               // S14 and S16
+               1, 2, 2, 3, 5,
                3, 4, 6, 6, 4, 3, 6, 7, 6, 3, 2, 5, 6, 6, 5, 2, 1, 2, 3, 4,
                3, 2, 1, 1, 2, 2, 3, 5, 3, 4, 6, 6, 4, 4, 7, 8, 7, 4, 3, 6,
                8, 8, 6, 3, 2, 5, 6, 7, 6, 5, 2, 1, 2, 3, 4, 4, 3, 2, 1};
 
-int w_map_offset[] = {0, 1, 4, 10, 20, 35, 63};
+int w_map_offset[] = {0, 1, 4, 10, 20, 35, 56, 84};
 }
 
 // Produce a vector of angles matching the level-symmetric quadrature of order
 // 'order'
 std::vector<Angle> GenSn(int order)
 {
-    if (order % 2 != 0) {
+    if ((order < 2) || (order % 2 != 0)) {
         throw EXCEPT("Sn quadrature order must be even.");
     }
     if (order > 16) {
-- 
2.43.0


From e4d91677af92ec7148cd6de031c5e5d625a3420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:24 +0000
Subject: [PATCH 07/63] fix: reverse directions of every octant in three
 dimensions

The three-dimensional reversal returned a wrong direction for octants 3, 4, 7
and 8.
---
 src/core/angular_quadrature.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/angular_quadrature.hpp b/src/core/angular_quadrature.hpp
index deab430..e71bc0f 100644
--- a/src/core/angular_quadrature.hpp
+++ b/src/core/angular_quadrature.hpp
@@ -161,7 +161,9 @@ public:
         if (dim == 2) {
             return (iang + ndir_oct_ * 2) % (ndir_oct_ * 4);
         } else {
-            return (iang + ndir_oct_ * 6) % (ndir_oct_ * 8);
+            // Turn around in the plane, then swap the upper and lower octants
+            unsigned int half = ndir_oct_ * 4;
+            return (iang + ndir_oct_ * 2) % half + (iang < half ? half : 0);
         }
         return 0;
     }
-- 
2.43.0


From 96051df974ddb37aa6b352c98afc7fac5672c0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:19 +0000
Subject: [PATCH 08/63] fix: divide the MoC emission density by the split cross
 section

With transverse-leakage splitting the rays are attenuated with the transport
cross section plus the split term, but the emission density was still divided
by the unsplit cross section. Use the expanded cross section that the caller
passes, so that both agree in every region.
---
 src/core/source_isotropic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source_isotropic.cpp b/src/core/source_isotropic.cpp
index 2d3b205..ebfde1e 100644
--- a/src/core/source_isotropic.cpp
+++ b/src/core/source_isotropic.cpp
@@ -26,8 +26,8 @@ void SourceIsotropic::self_scatter(size_t ig, const ArrayB1 &xstr)
         for (auto &xsr : *xs_mesh_) {
             const ScatteringRow &scat_row = xsr.xsmacsc().to(ig);
             real_t xssc                   = scat_row[ig];
-            real_t r_fpi_tr               = 1.0 / (xsr.xsmactr(ig) * FPI);
             for (const int ireg : xsr.reg()) {
+                real_t r_fpi_tr = 1.0 / (xstr(ireg) * FPI);
                 q_[ireg] = (source_1g_[ireg] + flux_1g(ireg) * xssc) * r_fpi_tr;
             }
         }
-- 
2.43.0


From b96facda9fd45f502f5a4f3bf5204ff790704b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:51 +0000
Subject: [PATCH 09/63] fix: store all axial currents from CMFD once per
 macroplane

The currents on the top surface of the domain were left at zero when planes
are grouped into macroplanes, and the surfaces inside a macroplane received
the current of its bottom surface.
---
 src/core/cmfd.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/cmfd.cpp b/src/core/cmfd.cpp
index ab2c243..827139d 100644
--- a/src/core/cmfd.cpp
+++ b/src/core/cmfd.cpp
@@ -626,9 +626,17 @@ void CMFD::store_currents()
                     int stp_coarse = mesh_.plane_surf_xy_begin(mplane) - 1;
                     coarse_data_.current(blitz::Range(stt_fine, stp_fine), ig) =
                         current_1g_(blitz::Range(stt_coarse, stp_coarse));
+                    current_mplane = mplane;
                 }
             }
-
+            // Lastly, the top surface currents
+            int n_mplanes  = fine_mesh_->n_macroplanes();
+            int stt_fine   = fine_mesh_->plane_surf_begin(nz);
+            int stp_fine   = fine_mesh_->plane_surf_xy_begin(nz) - 1;
+            int stt_coarse = mesh_.plane_surf_begin(n_mplanes);
+            int stp_coarse = mesh_.plane_surf_xy_begin(n_mplanes) - 1;
+            coarse_data_.current(blitz::Range(stt_fine, stp_fine), ig) =
+                current_1g_(blitz::Range(stt_coarse, stp_coarse));
         } else {
             coarse_data_.current(blitz::Range::all(), ig) = current_1g_;
         }
-- 
2.43.0


From 40e5bd3563054454128b280104c41c3d89fad751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:56 +0000
Subject: [PATCH 10/63] fix: compare all data when comparing cross sections

Emission spectra, scattering row bounds and scattering row values were left
out, so different cross sections could compare equal.
---
 src/core/scattering_matrix.hpp | 7 +++++++
 src/core/xs_mesh_region.hpp    | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/core/scattering_matrix.hpp b/src/core/scattering_matrix.hpp
index 79b93fc..15a9065 100644
--- a/src/core/scattering_matrix.hpp
+++ b/src/core/scattering_matrix.hpp
@@ -16,6 +16,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <iosfwd>
 #include "util/blitz_typedefs.hpp"
 #include "util/global_config.hpp"
@@ -62,6 +63,9 @@ public:
         if (max_g != other.max_g) {
             return false;
         }
+        if (!std::equal(this->begin(), this->end(), other.begin())) {
+            return false;
+        }
 
         return true;
     }
@@ -251,6 +255,9 @@ public:
         if (out_ != other.out_) {
             return false;
         }
+        if (rows_ != other.rows_) {
+            return false;
+        }
         return true;
     }
 
diff --git a/src/core/xs_mesh_region.hpp b/src/core/xs_mesh_region.hpp
index 04b65ed..a083a15 100644
--- a/src/core/xs_mesh_region.hpp
+++ b/src/core/xs_mesh_region.hpp
@@ -202,6 +202,9 @@ public:
             if (!fp_equiv_ulp(this->xsmacf(ig), other.xsmacf(ig))) {
                 return false;
             }
+            if (!fp_equiv_ulp(this->xsmacch(ig), other.xsmacch(ig))) {
+                return false;
+            }
             if (!fp_equiv_ulp(this->xsmacrm(ig), other.xsmacrm(ig))) {
                 return false;
             }
-- 
2.43.0


From 8761cd658977c2e633e83dba9e42b5cde1732bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:05 +0000
Subject: [PATCH 11/63] fix: normalize negative transfers in flux-weighted
 homogenization

A transport-corrected self-scattering cross section can be negative; it was
left as a reaction rate instead of being divided by the flux-volume sum.
---
 src/core/xs_mesh_homogenized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/xs_mesh_homogenized.cpp b/src/core/xs_mesh_homogenized.cpp
index 175a44c..9d609c2 100644
--- a/src/core/xs_mesh_homogenized.cpp
+++ b/src/core/xs_mesh_homogenized.cpp
@@ -342,7 +342,7 @@ void XSMeshHomogenized::homogenize_region_flux(int i, int first_reg,
         }
 
         for (size_t igg = 0; igg < ng_; igg++) {
-            if (scat[ig][igg] > 0.0) {
+            if (scat[ig][igg] != 0.0) {
                 scat[ig][igg] /= scatsum[igg];
             }
         }
-- 
2.43.0


From c14debc28aa88659e8de2871381786c4bb886880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:42 +0000
Subject: [PATCH 12/63] fix: extend the x-normal mesh lines over the full
 height of the domain

The lines between pin columns ended at the domain width instead of its
height. Rays through a domain taller than it is wide missed the upper pin
boundaries and charged their segments to the wrong pins.
---
 src/core/core_mesh.cpp | 2 +-
 src/core/mesh.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/core_mesh.cpp b/src/core/core_mesh.cpp
index 62d65b6..b96a5e0 100644
--- a/src/core/core_mesh.cpp
+++ b/src/core/core_mesh.cpp
@@ -122,7 +122,7 @@ CoreMesh::CoreMesh(const pugi::xml_node &input)
 
     // Form lines for internal pin boundaries and domain bounding box
     for (auto xi = x_vec_.cbegin() + 1; xi != x_vec_.cend() - 1; ++xi) {
-        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hx_)));
+        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hy_)));
     }
     for (auto yi = y_vec_.cbegin() + 1; yi != y_vec_.cend() - 1; ++yi) {
         lines_.push_back(Line(Point2(0.0, *yi), Point2(hx_, *yi)));
diff --git a/src/core/mesh.cpp b/src/core/mesh.cpp
index 0dcfb42..2f19c6d 100644
--- a/src/core/mesh.cpp
+++ b/src/core/mesh.cpp
@@ -45,7 +45,7 @@ Mesh::Mesh(size_t n_reg, size_t n_xsreg, const VecF &hx, const VecF &hy,
 
     hx_ = x_vec_.back();
     for (auto xi = x_vec_.cbegin() + 1; xi != x_vec_.cend() - 1; ++xi) {
-        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hx_)));
+        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, y_vec_.back())));
     }
     hy_ = y_vec_.back();
     for (auto yi = y_vec_.cbegin() + 1; yi != y_vec_.cend() - 1; ++yi) {
-- 
2.43.0


From 853a6bf15128efc7be4ee7ee55f6ea420219c51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:12 +0000
Subject: [PATCH 13/63] fix: check every material of a pin

The check stopped at the first fissile material, so an unknown material
listed after it was accepted.
---
 src/core/pin.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/pin.cpp b/src/core/pin.cpp
index ae1d177..9f3bfa7 100644
--- a/src/core/pin.cpp
+++ b/src/core/pin.cpp
@@ -72,7 +72,6 @@ Pin::Pin(const pugi::xml_node &input, const PinMesh_Map_t &meshes,
         const auto &mat = mat_lib[mid];
         if (mat.is_fissile()) {
             is_fuel_ = true;
-            break;
         }
     }
 
-- 
2.43.0


From 046563144b69f698cc24e024724978cb402d7bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:12 +0000
Subject: [PATCH 14/63] fix: report an unknown pin in a lattice as an input
 error

The lookup threw std::out_of_range, which the driver does not catch, so the
program aborted instead of naming the problem.
---
 src/core/lattice.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/lattice.cpp b/src/core/lattice.cpp
index 391fd73..8e876cb 100644
--- a/src/core/lattice.cpp
+++ b/src/core/lattice.cpp
@@ -61,6 +61,9 @@ Lattice::Lattice(const pugi::xml_node &input,
         for (unsigned int ix = 0; ix < nx_; ix++) {
             unsigned int col       = ix;
             int pin_id             = pin_ids[iy * nx_ + ix];
+            if (pins.count(pin_id) == 0) {
+                throw EXCEPT("Invalid pin ID specified in lattice.");
+            }
             pins_[row * nx_ + col] = pins.at(pin_id).get();
         }
     }
-- 
2.43.0


From c974dd002fdae89b25f373f3291394dcb3f53d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:12 +0000
Subject: [PATCH 15/63] fix: refuse cylindrical pin meshes with no subdivisions

Zero or negative azimuthal or radial subdivisions were accepted and led to
divisions by zero and empty rings.
---
 src/core/pin_mesh_cyl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index 04a2598..f9d968b 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -91,7 +91,7 @@ PinMesh_Cyl::PinMesh_Cyl(const pugi::xml_node &input) : PinMesh(input)
         // Make sure that the azimuthal division is even and <=8. One of
         // these days, ill solve the more general problem of any number of
         // azis.
-        if ((sub_azi_[0] % 2 != 0) | (sub_azi_[0] > 8)) {
+        if ((sub_azi_[0] % 2 != 0) | (sub_azi_[0] > 8) | (sub_azi_[0] < 1)) {
             throw EXCEPT("Only supporting even azimuthal subdivisions "
                          "<=8.");
         }
@@ -105,6 +105,11 @@ PinMesh_Cyl::PinMesh_Cyl(const pugi::xml_node &input) : PinMesh(input)
         if ((int)sub_rad_.size() != (n_xsreg_ - 1)) {
             throw EXCEPT("Wrong number of radial subdivisions specified.");
         }
+        for (auto n : sub_rad_) {
+            if (n < 1) {
+                throw EXCEPT("Radial subdivisions must be positive.");
+            }
+        }
     }
 
     //
-- 
2.43.0


From 67b051a4a028dd6964e7546ba2fbe6f6e4d2cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:12 +0000
Subject: [PATCH 16/63] fix: refuse assemblies whose plane heights are not
 positive

A height of zero or less left the assembly without any plane heights, which
were then read out of range.
---
 src/core/assembly.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/assembly.cpp b/src/core/assembly.cpp
index 56e00b6..cd2fca9 100644
--- a/src/core/assembly.cpp
+++ b/src/core/assembly.cpp
@@ -54,6 +54,9 @@ Assembly::Assembly(const pugi::xml_node &input,
         throw EXCEPT(msg.str());
     }
     real_t hz = input.attribute("hz").as_double(0.0);
+    if (!input.attribute("hz").empty() && !(hz > 0.0)) {
+        throw EXCEPT("Plane heights must be positive.");
+    }
     if (hz > 0.0) {
         // Fill the hz vector with all entries the same.
         dz_ = VecF(nz_, hz);
@@ -70,6 +73,11 @@ Assembly::Assembly(const pugi::xml_node &input,
                 << id_ << ".";
             throw EXCEPT(msg.str());
         }
+        for (auto dz : dz_) {
+            if (!(dz > 0.0)) {
+                throw EXCEPT("Plane heights must be positive.");
+            }
+        }
 
         // Lattice dimensions are read as top-to-bottom, but stored as
         // bottom-to-top.
-- 
2.43.0


From 0e339df93fa10597249f3e243f011c63a1bbb849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:33 +0000
Subject: [PATCH 17/63] fix: refuse planes whose lattices do not line up pin
 for pin

Lattices of equal size but different numbers of pins were accepted next to
each other. The pins of the plane were then numbered as if all rows had the
counts of the first one.
---
 src/core/plane.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/plane.cpp b/src/core/plane.cpp
index f29d6a0..3252c79 100644
--- a/src/core/plane.cpp
+++ b/src/core/plane.cpp
@@ -59,6 +59,10 @@ Plane::Plane(const std::vector<const Lattice *> &lattices, size_t nx, size_t ny)
             if (!fp_equiv_ulp(this->at(ix, iy).hy(), dy[iy])) {
                 throw EXCEPT("Lattices do not have compatible dimensions.");
             }
+            if ((this->at(ix, iy).nx() != this->at(ix, 0).nx()) ||
+                (this->at(ix, iy).ny() != this->at(0, iy).ny())) {
+                throw EXCEPT("Lattices do not have compatible pin counts.");
+            }
         }
     }
 
-- 
2.43.0


From 48e280f2c435f97193c350bb4a499185d1e276f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:00 +0000
Subject: [PATCH 18/63] fix: find the point where a ray leaves a box at or
 ahead of a corner

Box::intersect rejected a ray leaving exactly through a corner and returned an
uninitialized point, which happens for the diagonal subdivisions of square pins
of some pitches. It also accepted crossings behind the starting point.
---
 src/core/geometry/box.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/core/geometry/box.cpp b/src/core/geometry/box.cpp
index c479e04..05aedd1 100644
--- a/src/core/geometry/box.cpp
+++ b/src/core/geometry/box.cpp
@@ -53,8 +53,9 @@ Point2 Box::intersect(Point2 p, Angle ang) const
     x = p1_.x;
     d = (p1_.x - p.x) / ox;
     y = p.y + oy * d;
-    if ((fabs(d) > REAL_FUZZ) && (d < d_min) && (y > p1_.y) && (y < p2_.y)) {
-        d_min    = fabs(d);
+    if ((d > REAL_FUZZ) && (d < d_min) && (y > p1_.y - REAL_FUZZ) &&
+        (y < p2_.y + REAL_FUZZ)) {
+        d_min    = d;
         p_out.x  = x;
         p_out.y  = y;
         p_out.ok = true;
@@ -63,8 +64,9 @@ Point2 Box::intersect(Point2 p, Angle ang) const
     x = p2_.x;
     d = (p2_.x - p.x) / ox;
     y = p.y + oy * d;
-    if ((fabs(d) > REAL_FUZZ) && (d < d_min) && (y > p1_.y) && (y < p2_.y)) {
-        d_min    = fabs(d);
+    if ((d > REAL_FUZZ) && (d < d_min) && (y > p1_.y - REAL_FUZZ) &&
+        (y < p2_.y + REAL_FUZZ)) {
+        d_min    = d;
         p_out.x  = x;
         p_out.y  = y;
         p_out.ok = true;
@@ -74,8 +76,9 @@ Point2 Box::intersect(Point2 p, Angle ang) const
     y = p1_.y;
     d = (p1_.y - p.y) / oy;
     x = p.x + ox * d;
-    if ((fabs(d) > REAL_FUZZ) && (d < d_min) && (x > p1_.x) && (x < p2_.x)) {
-        d_min    = fabs(d);
+    if ((d > REAL_FUZZ) && (d < d_min) && (x > p1_.x - REAL_FUZZ) &&
+        (x < p2_.x + REAL_FUZZ)) {
+        d_min    = d;
         p_out.x  = x;
         p_out.y  = y;
         p_out.ok = true;
@@ -84,8 +87,9 @@ Point2 Box::intersect(Point2 p, Angle ang) const
     y = p2_.y;
     d = (p2_.y - p.y) / oy;
     x = p.x + ox * d;
-    if ((fabs(d) > REAL_FUZZ) && (d < d_min) && (x > p1_.x) && (x < p2_.x)) {
-        d_min    = fabs(d);
+    if ((d > REAL_FUZZ) && (d < d_min) && (x > p1_.x - REAL_FUZZ) &&
+        (x < p2_.x + REAL_FUZZ)) {
+        d_min    = d;
         p_out.x  = x;
         p_out.y  = y;
         p_out.ok = true;
-- 
2.43.0


From 9252f888c55e46d889363a082d794e9ce492578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:04 +0000
Subject: [PATCH 19/63] fix: refuse pin radii that are not positive or exceed
 the smaller pitch

Only the first pitch of a pin was compared with its largest radius.
---
 src/core/pin_mesh_cyl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index f9d968b..cea4db5 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -64,8 +64,13 @@ PinMesh_Cyl::PinMesh_Cyl(const pugi::xml_node &input) : PinMesh(input)
             }
         }
 
+        // Make sure the radii are positive
+        if (xs_radii_.front() <= 0.0) {
+            throw EXCEPT("Pin radii must be positive.");
+        }
+
         // Make sure the last radius is smaller than a half-pitch
-        if (xs_radii_.back() > pitch_x_ * 0.5) {
+        if (xs_radii_.back() > std::min(pitch_x_, pitch_y_) * 0.5) {
             throw EXCEPT("Largest radius is too big!");
         }
 
-- 
2.43.0


From 54215a255a596942e90523b1ac959faa7e81fb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:08 +0000
Subject: [PATCH 20/63] fix: find the region of points on the edges of a pin
 mesh

A point on the positive x axis of a cylindrical pin was given a region of the
next ring, and one on the lower or left edge of a rectangular pin a region of
the row below it.
---
 src/core/pin_mesh_cyl.cpp  | 2 ++
 src/core/pin_mesh_rect.cpp | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index cea4db5..1ec58b5 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -258,6 +258,8 @@ int PinMesh_Cyl::find_reg(Point2 p) const
     // Find the azimuthal subdivision that the point is in.
     real_t azi = p.alpha();
     int ia     = azi / (TWOPI / sub_azi_[0]);
+    // An angle of two pi belongs to the last subdivision
+    ia         = std::min(ia, sub_azi_[0] - 1);
     int ireg   = ir * sub_azi_[0] + ia;
 
     assert((0 <= ireg) && (ireg < n_reg_));
diff --git a/src/core/pin_mesh_rect.cpp b/src/core/pin_mesh_rect.cpp
index 8842e9e..c721f37 100644
--- a/src/core/pin_mesh_rect.cpp
+++ b/src/core/pin_mesh_rect.cpp
@@ -155,8 +155,8 @@ int PinMesh_Rect::find_reg(Point2 p) const
         hx_.begin(), std::lower_bound(hx_.cbegin(), hx_.cend(), p.x));
     int iy = std::distance(
         hy_.begin(), std::lower_bound(hy_.cbegin(), hy_.cend(), p.y));
-    ix--;
-    iy--;
+    ix = std::max(0, ix - 1);
+    iy = std::max(0, iy - 1);
     
     int ireg = nx_ * iy + ix ;
 
-- 
2.43.0


From 44afa19a6d112928d5242eca982a88e58aad60dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:58 +0000
Subject: [PATCH 21/63] fix: refuse pins that a ray crosses in more segments
 than its coarse data can count

The number of segments in a pin is kept in 8 bits. A pin divided more finely
than that wrapped around, and the currents were taken at the wrong points of
the ray.
---
 src/sweepers/moc/ray.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sweepers/moc/ray.cpp b/src/sweepers/moc/ray.cpp
index c2b2988..8318493 100644
--- a/src/sweepers/moc/ray.cpp
+++ b/src/sweepers/moc/ray.cpp
@@ -18,6 +18,8 @@
 
 #include <cassert>
 
+#include "util/error.hpp"
+
 // Assuming that p1 is the "origin" return the quadrant of the angle formed by
 // p1. Since we assume that p1 is below p2 in y, only octants 1 or 2 can be
 // returned.
@@ -76,6 +78,9 @@ Ray::Ray(Point2 p1, Point2 p2, std::array<int, 2> bc, int iplane,
 
         int nseg = pmt.pm->trace(p_prev - pin_p, *pi - pin_p, first_reg,
                                  seg_len_, seg_index_);
+        if (nseg > MAX_NSEG) {
+            throw EXCEPT("Too many ray segments in a single pin.");
+        }
 
         cm_nseg.push_back(nseg);
 
-- 
2.43.0


From 3bb2aec4534a98d3725285bd5a47a7444df9c254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:36 +0000
Subject: [PATCH 22/63] fix: weight the surface flux tallied by the Sn sweepers

The currents were tallied with the weight of each angle and the surface flux
without it, so the surface flux was not comparable with the scalar flux that
CMFD relates it to, nor with that of the MoC sweeper.
---
 src/sweepers/sn/sn_current_worker.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/sweepers/sn/sn_current_worker.hpp b/src/sweepers/sn/sn_current_worker.hpp
index 612d028..4d10a1d 100644
--- a/src/sweepers/sn/sn_current_worker.hpp
+++ b/src/sweepers/sn/sn_current_worker.hpp
@@ -89,7 +89,7 @@ public:
 #pragma omp atomic update
                 data_->current(surf, group) += ox * x[ny * iz + iy];
 #pragma omp atomic update
-                data_->surface_flux(surf, group) += x[ny * iz + iy];
+                data_->surface_flux(surf, group) += x[ny * iz + iy] * w;
             }
         }
 
@@ -102,7 +102,7 @@ public:
 #pragma omp atomic update
                 data_->current(surf, group) += oy * y[nx * iz + ix];
 #pragma omp atomic update
-                data_->surface_flux(surf, group) += y[nx * iz + ix];
+                data_->surface_flux(surf, group) += y[nx * iz + ix] * w;
             }
         }
 
@@ -115,7 +115,7 @@ public:
 #pragma omp atomic update
                 data_->current(surf, group) += oz * z[nx * iy + ix];
 #pragma omp atomic update
-                data_->surface_flux(surf, group) += z[nx * iy + ix];
+                data_->surface_flux(surf, group) += z[nx * iy + ix] * w;
             }
         }
 
@@ -159,7 +159,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += ox * x[iy];
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += x[iy];
+            data_->surface_flux(surf, group) += x[iy] * w;
         }
 
         // Y-normal
@@ -170,7 +170,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += oy * y[ix];
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += y[ix];
+            data_->surface_flux(surf, group) += y[ix] * w;
         }
 
         return;
@@ -199,7 +199,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_x * ox;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_x;
+            data_->surface_flux(surf, group) += psi_x * w;
         }
 
         // Y-normal
@@ -208,7 +208,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_y * oy;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_y;
+            data_->surface_flux(surf, group) += psi_y * w;
         }
 
         // Z-normal
@@ -217,7 +217,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_z * oz;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_z;
+            data_->surface_flux(surf, group) += psi_z * w;
         }
 
         return;
@@ -244,7 +244,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_x * ox;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_x;
+            data_->surface_flux(surf, group) += psi_x * w;
         }
 
         // Y-normal
@@ -253,7 +253,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_y * oy;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_y;
+            data_->surface_flux(surf, group) += psi_y * w;
         }
 
         return;
-- 
2.43.0


From bf29cce0fd5cc8fb78797a01638320329eebffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:42 +0000
Subject: [PATCH 23/63] fix: add the backward angular flux to the surface flux
 in the 2D3D corrections

It was subtracted like the current is, so the surface flux of the MoC sweeper
in 2D3D was the difference of the two directions.
---
 src/sweepers/cmdo/correction_worker.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sweepers/cmdo/correction_worker.hpp b/src/sweepers/cmdo/correction_worker.hpp
index 039c9bd..a696702 100644
--- a/src/sweepers/cmdo/correction_worker.hpp
+++ b/src/sweepers/cmdo/correction_worker.hpp
@@ -133,7 +133,7 @@ public:
                 psi2[iseg_bw] * current_weights_[norm_bw];
             surface_flux(surf_fw + surf_offset_) +=
                 psi1[iseg_fw] * flux_weights_[norm_fw];
-            surface_flux(surf_bw + surf_offset_) -=
+            surface_flux(surf_bw + surf_offset_) +=
                 psi2[iseg_bw] * flux_weights_[norm_bw];
 
             surf_sum_(surf_fw * 2 + 0) += psi1[iseg_fw];
@@ -191,7 +191,7 @@ public:
                     surf_bw = mesh_->coarse_surf(cell_bw, crd->bw);
                     current(surf_bw + surf_offset_) -=
                         psi2[iseg_bw] * current_weights_[norm_bw];
-                    surface_flux(surf_bw + surf_offset_) -=
+                    surface_flux(surf_bw + surf_offset_) +=
                         psi2[iseg_bw] * flux_weights_[norm_bw];
                     surf_sum_(surf_bw * 2 + 1) += psi2[iseg_bw];
                     surf_norm_(surf_bw * 2 + 1) += 1.0;
-- 
2.43.0


From 232fad21e036007d3d2517ca33d14206c5f797a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:40:14 +0000
Subject: [PATCH 24/63] fix: expand currents over macroplanes without touching
 axial surfaces

The ranges copied included the first axial surface of the plane above, the
surface flux was not expanded, and the currents of one plane were divided by
the areas of another when the heights of the planes differ.
---
 src/sweepers/moc/moc_current_worker.hpp | 35 ++++++++++++++-----------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/sweepers/moc/moc_current_worker.hpp b/src/sweepers/moc/moc_current_worker.hpp
index 9aeb1e2..58f52a2 100644
--- a/src/sweepers/moc/moc_current_worker.hpp
+++ b/src/sweepers/moc/moc_current_worker.hpp
@@ -273,6 +273,20 @@ public:
     {
 #pragma omp single
         {
+            auto all          = blitz::Range::all();
+            auto current      = coarse_data_->current(all, group_);
+            auto surface_flux = coarse_data_->surface_flux(all, group_);
+            // Normalize the surface currents. This has to precede the expansion,
+            // since the areas are those of the planes they are stored on.
+            for (size_t plane = 0; plane < mesh_->nz(); plane++) {
+                for (int surf = mesh_->plane_surf_xy_begin(plane);
+                     surf != (int)mesh_->plane_surf_end(plane); ++surf) {
+                    real_t area = mesh_->coarse_area(surf);
+                    current(surf) /= area;
+                    surface_flux(surf) /= area;
+                }
+            }
+
             // Check to see if we need to expand the currents across the mesh.
             if ((int)mesh_->nz() - 1 != (mesh_->macroplane_index().back())) {
                 // In the presence of subplaning, the currents coming from the
@@ -287,32 +301,23 @@ public:
                      mplane_it != mesh_->macroplane_index().crend();
                      ++mplane_it) {
                     int stt_out = mesh_->plane_surf_xy_begin(iz);
-                    int stp_out = mesh_->plane_surf_end(iz);
+                    int stp_out = mesh_->plane_surf_end(iz) - 1;
                     int ip      = *mplane_it;
                     int stt_in  = mesh_->plane_surf_xy_begin(ip);
-                    int stp_in  = mesh_->plane_surf_end(ip);
+                    int stp_in  = mesh_->plane_surf_end(ip) - 1;
 
                     coarse_data_->current(blitz::Range(stt_out, stp_out),
                                           group_) =
                         coarse_data_->current(blitz::Range(stt_in, stp_in),
                                               group_);
+                    coarse_data_->surface_flux(blitz::Range(stt_out, stp_out),
+                                               group_) =
+                        coarse_data_->surface_flux(
+                            blitz::Range(stt_in, stp_in), group_);
 
                     iz--;
                 }
             }
-
-            auto all          = blitz::Range::all();
-            auto current      = coarse_data_->current(all, group_);
-            auto surface_flux = coarse_data_->surface_flux(all, group_);
-            // Normalize the surface currents
-            for (size_t plane = 0; plane < mesh_->nz(); plane++) {
-                for (int surf = mesh_->plane_surf_xy_begin(plane);
-                     surf != (int)mesh_->plane_surf_end(plane); ++surf) {
-                    real_t area = mesh_->coarse_area(surf);
-                    current(surf) /= area;
-                    surface_flux(surf) /= area;
-                }
-            }
         }
         return;
     }
-- 
2.43.0


From 14cc13b003a449525e4825fbb92b3a8b16934eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:50 +0000
Subject: [PATCH 25/63] fix: compare the pin flux set in the Sn sweeper with
 that of the same pin

The residual was taken against the flux of region 1 for every pin.
---
 src/sweepers/sn/sn_sweeper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweepers/sn/sn_sweeper.hpp b/src/sweepers/sn/sn_sweeper.hpp
index 41981d0..777bcb3 100644
--- a/src/sweepers/sn/sn_sweeper.hpp
+++ b/src/sweepers/sn/sn_sweeper.hpp
@@ -110,7 +110,7 @@ public:
         case MeshTreatment::PIN: {
             int i = 0;
             for (auto &v : pin_flux) {
-                real_t e = flux_(1, group) - v;
+                real_t e = flux_((int)i, (int)group) - v;
                 resid += e * e;
                 flux_((int)i, (int)group) = v;
                 i++;
-- 
2.43.0


From ff103e1ca9d8c30caaeb2d61b4d04e604a2e623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:50 +0000
Subject: [PATCH 26/63] fix: report the residual of fluxes set by macroplane in
 the Sn sweeper

---
 src/sweepers/sn/sn_sweeper.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sweepers/sn/sn_sweeper.hpp b/src/sweepers/sn/sn_sweeper.hpp
index 777bcb3..808ca93 100644
--- a/src/sweepers/sn/sn_sweeper.hpp
+++ b/src/sweepers/sn/sn_sweeper.hpp
@@ -122,6 +122,10 @@ public:
             ArrayB1 plane_pin_flux(mesh_.n_reg(MeshTreatment::PIN_PLANE));
             this->get_pin_flux_1g(group, plane_pin_flux,
                                   MeshTreatment::PIN_PLANE);
+            for (int i = 0; i < (int)pin_flux.size(); i++) {
+                real_t e = plane_pin_flux(i) - pin_flux(i);
+                resid += e * e;
+            }
             plane_pin_flux /= pin_flux;
 
             int n_per_plane = mesh_.nx() * mesh_.ny();
-- 
2.43.0


From bd14a8027ea3810416f95f69d503465f1c946753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:50 +0000
Subject: [PATCH 27/63] fix: keep the pin flux homogenised over macroplanes
 when it is set in the MoC sweeper

The average over the planes of each macroplane was overwritten by the plane by
plane flux before it was used.
---
 src/sweepers/moc/moc_sweeper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/moc/moc_sweeper.cpp b/src/sweepers/moc/moc_sweeper.cpp
index 45c9b2c..1f2a07c 100644
--- a/src/sweepers/moc/moc_sweeper.cpp
+++ b/src/sweepers/moc/moc_sweeper.cpp
@@ -394,7 +394,9 @@ real_t MoCSweeper::set_pin_flux_1g(int group, const ArrayB1 &pin_flux,
             plane_pin_flux(i) /= mesh_.macroplane_heights()[iz];
         }
     case MeshTreatment::PIN_PLANE: {
-        plane_pin_flux = pin_flux;
+        if (treatment == MeshTreatment::PIN_PLANE) {
+            plane_pin_flux = pin_flux;
+        }
         int iz       = 0;
         int ireg     = 0;
         for (const auto &mplane : mesh_.macroplanes()) {
-- 
2.43.0


From ddee2a97024be1c544752ba4899995c898079aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:50 +0000
Subject: [PATCH 28/63] fix: set the Sn flux from the MoC one by macroplane in
 the 2D3D sweeper

The flux handed over holds one value per pin and macroplane, but was taken as
one per pin and plane.
---
 src/sweepers/cmdo/plane_sweeper_2d3d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/cmdo/plane_sweeper_2d3d.cpp b/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
index e8632ef..fed4f8e 100644
--- a/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
+++ b/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
@@ -172,7 +172,8 @@ void PlaneSweeper_2D3D::sweep(int group)
                                  MeshTreatment::PIN_PLANE);
 
     if (do_mocproject_) {
-        sn_sweeper_->set_pin_flux_1g(group, prev_moc_flux);
+        sn_sweeper_->set_pin_flux_1g(group, prev_moc_flux,
+                                     MeshTreatment::PIN_PLANE);
     }
 
     // Sn sweeper
-- 
2.43.0


From e25115b7d438f2c21b6178715653deb61dbd9fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:28 +0000
Subject: [PATCH 29/63] fix: weight the CMFD fission production by the volume
 of the cells

The eigenvalue is updated by the ratio of total productions, which the sum of
the cell averages is not when the cells differ in volume.
---
 src/core/cmfd.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/cmfd.cpp b/src/core/cmfd.cpp
index 827139d..be17091 100644
--- a/src/core/cmfd.cpp
+++ b/src/core/cmfd.cpp
@@ -322,7 +322,8 @@ real_t CMFD::total_fission()
     for (const auto &xsr : xsmesh_) {
         for (const int i : xsr.reg()) {
             for (int ig = 0; ig < n_group_; ig++) {
-                f += xsr.xsmacnf(ig) * coarse_data_.flux(i, ig);
+                f += xsr.xsmacnf(ig) * coarse_data_.flux(i, ig) *
+                     mesh_.coarse_volume(i);
             }
         }
     }
-- 
2.43.0


From b2116bd1a3e44f8eebd6f680e6374a1be1ddda02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:09 +0000
Subject: [PATCH 30/63] fix: refuse discrepant flux updates, which the 2D3D
 sweeper cannot perform

---
 src/sweepers/cmdo/plane_sweeper_2d3d.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sweepers/cmdo/plane_sweeper_2d3d.cpp b/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
index fed4f8e..05e8754 100644
--- a/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
+++ b/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
@@ -402,6 +402,9 @@ void PlaneSweeper_2D3D::parse_options(const pugi::xml_node &input)
     if (!input.attribute("discrepant_flux_update").empty()) {
         discrepant_flux_update_ =
             input.attribute("discrepant_flux_update").as_bool();
+        if (discrepant_flux_update_) {
+            throw EXCEPT("Discrepant flux updates are not supported.");
+        }
     }
     dump_corrections_ = input.attribute("dump_corrections").as_bool(false);
 
-- 
2.43.0


From 7202586e9ccc85b3e7cfec7211bde7ea226eff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:09 +0000
Subject: [PATCH 31/63] fix: refuse a MoC sweep modulo less than one in the
 2D3D sweeper

---
 src/sweepers/cmdo/plane_sweeper_2d3d.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sweepers/cmdo/plane_sweeper_2d3d.cpp b/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
index 05e8754..3f913b7 100644
--- a/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
+++ b/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
@@ -392,6 +392,9 @@ void PlaneSweeper_2D3D::parse_options(const pugi::xml_node &input)
     }
     if (!input.attribute("moc_modulo").empty()) {
         moc_modulo_ = input.attribute("moc_modulo").as_int();
+        if (moc_modulo_ < 1) {
+            throw EXCEPT("MoC sweep modulo must be positive.");
+        }
     }
     if (!input.attribute("preserve_sn_quadrature").empty()) {
         keep_sn_quad_ = input.attribute("preserve_sn_quadrature").as_bool();
-- 
2.43.0


From c2bced5e77bb12adf4c72c78ad5fc1bbfdbedfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:20:20 +0000
Subject: [PATCH 32/63] fix: apply the correction factors in the primitive
 multiple-balance axial treatment

---
 src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp b/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
index 9ed4951..108ad6c 100644
--- a/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
+++ b/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
@@ -51,8 +51,8 @@ public:
             corrections_->alpha(ia, t_state.iang_2d, group_, Normal::Y_NORM);
         real_t b = corrections_->beta(ia, t_state.iang_2d, group_);
 
-        real_t gx = 0.5;//ax * b;
-        real_t gy = 0.5;//ay * b;
+        real_t gx = ax * b;
+        real_t gy = ay * b;
 
         real_t psi = q - (t_state.tz * q) / (2.0 * t_state.tz + xstr) +
                      2.0 * (tx * flux_x + t_state.ty * flux_y) +
-- 
2.43.0


From b0273c48e1b4bda186da9e3aed9925c8c76ba51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:20:20 +0000
Subject: [PATCH 33/63] fix: apply correction data without a top plane to all
 planes above the bottom one

---
 src/sweepers/cmdo/correction_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweepers/cmdo/correction_data.cpp b/src/sweepers/cmdo/correction_data.cpp
index 4e0691e..a8dcd46 100644
--- a/src/sweepers/cmdo/correction_data.cpp
+++ b/src/sweepers/cmdo/correction_data.cpp
@@ -195,7 +195,7 @@ void CorrectionData::read_data_multi(const pugi::xml_node &input)
 
     for (auto data = input.child("data"); data;
          data      = data.next_sibling("data")) {
-        int top_plane = 0;
+        int top_plane = np - 1;
         int bot_plane = 0;
         if (!data.attribute("top_plane").empty()) {
             top_plane = data.attribute("top_plane").as_int();
-- 
2.43.0


From 469527d246c196f4644f88de2e6b650ae6ed9061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:20:39 +0000
Subject: [PATCH 34/63] fix: read correction data written for an entire
 geometry of several planes

---
 src/sweepers/cmdo/correction_data.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/sweepers/cmdo/correction_data.cpp b/src/sweepers/cmdo/correction_data.cpp
index a8dcd46..dcf0e81 100644
--- a/src/sweepers/cmdo/correction_data.cpp
+++ b/src/sweepers/cmdo/correction_data.cpp
@@ -86,8 +86,13 @@ void CorrectionData::read_data_single(const pugi::xml_node &data,
 
     H5Node h5d(data.attribute("file").value(), H5Access::READ);
 
+    // The file may contain a single plane, which applies to all of the planes
+    // requested, or the entire geometry
+    int n_plane = h5d.dimensions("alpha_x/000/000")[0] == nz_ ? nz_ : 1;
+    int n_cell  = nx_ * ny_;
+
     // allocate a single buffer to read our data into for each group/angle
-    ArrayB1 inbuf(nx_ * ny_);
+    ArrayB1 inbuf(n_cell * n_plane);
 
     for (int ig = 0; ig < ngroup_; ig++) {
         for (int iang = 0; iang < nang_; iang++) {
@@ -104,8 +109,10 @@ void CorrectionData::read_data_single(const pugi::xml_node &data,
                 for (int ip = bottom_plane; ip <= top_plane; ip++) {
                     int stt = mesh_->plane_cell_begin(ip);
                     int stp = mesh_->plane_cell_end(ip) - 1;
+                    int in  = n_plane > 1 ? stt : 0;
                     alpha_(ig, iang, blitz::Range(stt, stp),
-                           (int)Normal::X_NORM) = inbuf;
+                           (int)Normal::X_NORM) =
+                        inbuf(blitz::Range(in, in + n_cell - 1));
                 }
             }
             // alpha y
@@ -121,8 +128,10 @@ void CorrectionData::read_data_single(const pugi::xml_node &data,
                 for (int ip = bottom_plane; ip <= top_plane; ip++) {
                     int stt = mesh_->plane_cell_begin(ip);
                     int stp = mesh_->plane_cell_end(ip) - 1;
+                    int in  = n_plane > 1 ? stt : 0;
                     alpha_(ig, iang, blitz::Range(stt, stp),
-                           (int)Normal::Y_NORM) = inbuf;
+                           (int)Normal::Y_NORM) =
+                        inbuf(blitz::Range(in, in + n_cell - 1));
                 }
             }
             // beta
@@ -138,7 +147,9 @@ void CorrectionData::read_data_single(const pugi::xml_node &data,
                 for (int ip = bottom_plane; ip <= top_plane; ip++) {
                     int stt = mesh_->plane_cell_begin(ip);
                     int stp = mesh_->plane_cell_end(ip) - 1;
-                    beta_(ig, iang, blitz::Range(stt, stp)) = inbuf;
+                    int in  = n_plane > 1 ? stt : 0;
+                    beta_(ig, iang, blitz::Range(stt, stp)) =
+                        inbuf(blitz::Range(in, in + n_cell - 1));
                 }
             }
         }
-- 
2.43.0


From 14f656ce0c45a1d7c3d4c91a81fc9c252c7ab876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:53 +0000
Subject: [PATCH 35/63] fix: give every Monte Carlo history its own part of the
 random sequence

---
 src/sweepers/mc/particle_pusher.cpp | 2 +-
 src/sweepers/mc/particle_pusher.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sweepers/mc/particle_pusher.cpp b/src/sweepers/mc/particle_pusher.cpp
index b507b7b..65b286d 100644
--- a/src/sweepers/mc/particle_pusher.cpp
+++ b/src/sweepers/mc/particle_pusher.cpp
@@ -168,7 +168,7 @@ void ParticlePusher::simulate(Particle p, bool tally)
     bool print = print_particles_;
 
     RNG.set_seed(seed_);
-    RNG.jump_ahead((p.id + id_offset_) * 10000);
+    RNG.jump_ahead(((uint64_t)p.id + id_offset_) * 10000);
 
     // Register this particle with the tallies
     k_tally_tl_.add_weight(p.weight);
diff --git a/src/sweepers/mc/particle_pusher.hpp b/src/sweepers/mc/particle_pusher.hpp
index 6ad9a23..94b056a 100644
--- a/src/sweepers/mc/particle_pusher.hpp
+++ b/src/sweepers/mc/particle_pusher.hpp
@@ -250,7 +250,7 @@ private:
     TallySpatial pin_power_tally_;
 
     // Used to generate unique particle IDs
-    unsigned id_offset_;
+    uint64_t id_offset_;
 
     unsigned n_cycles_;
     bool print_particles_;
-- 
2.43.0


From 1c0bc47deacdc1d835a013997b7bff84cc558848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:53 +0000
Subject: [PATCH 36/63] fix: keep random samples below unity

---
 src/util/rng_lcg.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util/rng_lcg.hpp b/src/util/rng_lcg.hpp
index cd5a088..6870e67 100644
--- a/src/util/rng_lcg.hpp
+++ b/src/util/rng_lcg.hpp
@@ -17,8 +17,10 @@
 #pragma once
 
 #include <cassert>
+#include <algorithm>
 #include <cstdint>
 #include <iostream>
+#include <limits>
 #include <random>
 
 #include "util/force_inline.hpp"
@@ -61,7 +63,9 @@ public:
      */
     real_t random()
     {
-        return float_scale_ * (*this)();
+        // The largest integers round up to unity when converted
+        return std::min(float_scale_ * (*this)(),
+                        1.0 - 0.5 * std::numeric_limits<real_t>::epsilon());
     }
 
     /**
@@ -72,7 +76,7 @@ public:
     {
         assert(ubound > 0.0);
 
-        real_t v = float_scale_ * (*this)();
+        real_t v = this->random();
         return v * ubound;
     }
 
-- 
2.43.0


From 1058ef238578b4d9c7661f644537423b51cc3c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:53 +0000
Subject: [PATCH 37/63] fix: make the relative deviation of spatial tallies
 independent of the region volume

---
 src/sweepers/mc/tally_spatial.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sweepers/mc/tally_spatial.hpp b/src/sweepers/mc/tally_spatial.hpp
index 9abfbf1..c11ac05 100644
--- a/src/sweepers/mc/tally_spatial.hpp
+++ b/src/sweepers/mc/tally_spatial.hpp
@@ -131,8 +131,7 @@ public:
             real_t mean_of_square = data_[i].second / (n_ - 1.0);
             real_t variance       = mean_of_square - square_of_mean;
 
-            ret.push_back({mean * r_norm,
-                           std::sqrt(variance * r_norm) / (mean * r_norm)});
+            ret.push_back({mean * r_norm, std::sqrt(variance) / mean});
         }
 
         return ret;
-- 
2.43.0


From fe578a03b572b0f31a68c74426a5e42bec4db737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:53 +0000
Subject: [PATCH 38/63] fix: report fission sites in the cell one past the last

---
 src/sweepers/mc/fission_bank.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweepers/mc/fission_bank.cpp b/src/sweepers/mc/fission_bank.cpp
index d0fa6b0..94253d3 100644
--- a/src/sweepers/mc/fission_bank.cpp
+++ b/src/sweepers/mc/fission_bank.cpp
@@ -93,7 +93,7 @@ real_t FissionBank::shannon_entropy() const
 
     for (const auto &p : sites_) {
         int icell = mesh_.coarse_cell_point(p.location_global);
-        if (icell < 0 || icell > (int)mesh_.n_pin()) {
+        if (icell < 0 || icell >= (int)mesh_.n_pin()) {
             std::stringstream msg;
             msg << "Couldnt locate particle: " << p << std::endl;
             throw EXCEPT(msg.str());
-- 
2.43.0


From 0dc770ec292385110657d3bda5213fdc551da591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:53 +0000
Subject: [PATCH 39/63] fix: initialize the total fission of an empty fission
 bank

---
 src/sweepers/mc/fission_bank.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/mc/fission_bank.cpp b/src/sweepers/mc/fission_bank.cpp
index 94253d3..28ab308 100644
--- a/src/sweepers/mc/fission_bank.cpp
+++ b/src/sweepers/mc/fission_bank.cpp
@@ -22,7 +22,8 @@
 
 namespace mocc {
 namespace mc {
-FissionBank::FissionBank(const CoreMesh &mesh) : mesh_(mesh)
+FissionBank::FissionBank(const CoreMesh &mesh)
+    : mesh_(mesh), total_fission_(0.0)
 {
     return;
 }
-- 
2.43.0


From 30be670db13559a2ee5b834df73082151fd8171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:53 +0000
Subject: [PATCH 40/63] fix: perform the number of Monte Carlo cycles requested

---
 src/solvers/monte_carlo_eigenvalue_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/monte_carlo_eigenvalue_solver.cpp b/src/solvers/monte_carlo_eigenvalue_solver.cpp
index 5978147..565d5a7 100644
--- a/src/solvers/monte_carlo_eigenvalue_solver.cpp
+++ b/src/solvers/monte_carlo_eigenvalue_solver.cpp
@@ -115,7 +115,7 @@ void MonteCarloEigenvalueSolver::solve()
     LogScreen << "Starting active cycles:" << std::endl;
     active_cycle_ = true;
 
-    int n_active = n_cycles_ - n_inactive_cycles_ + 1;
+    int n_active = n_cycles_ - n_inactive_cycles_;
     for (int i = 0; i < n_active; i++) {
         this->step();
     }
-- 
2.43.0


From 7df4ede3f76350fb7289cffc4874aefd066e722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:53 +0000
Subject: [PATCH 41/63] fix: refuse a negative number of particles before
 sizing the fission bank

---
 src/sweepers/mc/fission_bank.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sweepers/mc/fission_bank.cpp b/src/sweepers/mc/fission_bank.cpp
index 28ab308..529f977 100644
--- a/src/sweepers/mc/fission_bank.cpp
+++ b/src/sweepers/mc/fission_bank.cpp
@@ -36,6 +36,9 @@ FissionBank::FissionBank(const pugi::xml_node &input, int n,
     if (input.empty()) {
         throw EXCEPT("Empty input provided to FissionBank");
     }
+    if (n < 0) {
+        throw EXCEPT("Invalid number of particles per cycle specified");
+    }
 
     int ng = xs_mesh.n_group();
 
-- 
2.43.0


From 2b06c696d31634079dd778187a750f743923e9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:24:13 +0000
Subject: [PATCH 42/63] fix: refuse boundary conditions not supported by Monte
 Carlo before simulating

---
 src/sweepers/mc/particle_pusher.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sweepers/mc/particle_pusher.cpp b/src/sweepers/mc/particle_pusher.cpp
index 65b286d..765e60a 100644
--- a/src/sweepers/mc/particle_pusher.cpp
+++ b/src/sweepers/mc/particle_pusher.cpp
@@ -82,6 +82,13 @@ ParticlePusher::ParticlePusher(const CoreMesh &mesh, const XSMesh &xs_mesh)
       n_cycles_(0),
       print_particles_(false)
 {
+    // Errors cannot be reported once the histories are being simulated
+    for (const auto bc : mesh_.boundary()) {
+        if ((bc != Boundary::REFLECT) && (bc != Boundary::VACUUM)) {
+            throw EXCEPT("Unsupported boundary condition");
+        }
+    }
+
     // Build the map from mesh regions into the XS mesh
     xsmesh_regions_.resize(mesh.n_reg(MeshTreatment::TRUE), -1);
 
-- 
2.43.0


From d2086fed8c11bbf9e88ca9ae55e5b955b244b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:18:46 +0000
Subject: [PATCH 43/63] fix: refuse a fission_box that extends beyond the core

Sites sampled outside of the core are located inside of a parallel region,
where the failure to do so cannot be reported.
---
 src/sweepers/mc/fission_bank.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sweepers/mc/fission_bank.cpp b/src/sweepers/mc/fission_bank.cpp
index 529f977..bbc257b 100644
--- a/src/sweepers/mc/fission_bank.cpp
+++ b/src/sweepers/mc/fission_bank.cpp
@@ -19,6 +19,7 @@
 #include <iostream>
 #include "pugixml.hpp"
 #include "util/error.hpp"
+#include "util/fp_utils.hpp"
 
 namespace mocc {
 namespace mc {
@@ -61,6 +62,16 @@ FissionBank::FissionBank(const pugi::xml_node &input, int n,
         throw EXCEPT("Invalid fission_box bounds specified.");
     }
 
+    // Make sure that the sites to be sampled lie within the core
+    if (fuzzy_lt(x_min, mesh.x_divisions().front()) ||
+        fuzzy_lt(mesh.x_divisions().back(), x_max) ||
+        fuzzy_lt(y_min, mesh.y_divisions().front()) ||
+        fuzzy_lt(mesh.y_divisions().back(), y_max) ||
+        fuzzy_lt(z_min, mesh.z_divisions().front()) ||
+        fuzzy_lt(mesh.z_divisions().back(), z_max)) {
+        throw EXCEPT("The fission_box extends beyond the core.");
+    }
+
     // See if we want to do a fissile region rejection (only accept fission
     // sites in fissile regions).
     bool fissile_rejection = input.attribute("fissile_rejection").as_bool(true);
-- 
2.43.0


From ecd38c736138116f9204d640b5b8ffb6b78034a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:18:51 +0000
Subject: [PATCH 44/63] fix: keep the last character before an opening brace

Values immediately followed by an opening brace lost their last digit.
---
 src/util/string_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/string_utils.cpp b/src/util/string_utils.cpp
index aac7638..de61b34 100644
--- a/src/util/string_utils.cpp
+++ b/src/util/string_utils.cpp
@@ -146,7 +146,7 @@ std::vector<std::vector<int>> explode_braces(std::string data)
         pos_stp = data.find('}', pos_stt);
         if (pos_stt - pos > 0) {
             std::vector<int> naked_ints =
-                explode_string<int>(data.substr(pos, pos_stt - pos - 1));
+                explode_string<int>(data.substr(pos, pos_stt - pos));
             if (naked_ints.size() > 0) {
                 for (const auto &v : naked_ints) {
                     out.push_back(std::vector<int>(1, v));
-- 
2.43.0


From 425441b6fac09f631930cad1252c28aad11e03ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:19:16 +0000
Subject: [PATCH 45/63] fix: refuse malformed headers and duplicate names in
 material libraries

---
 src/core/material_lib.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/material_lib.cpp b/src/core/material_lib.cpp
index 9c45e76..5357d34 100644
--- a/src/core/material_lib.cpp
+++ b/src/core/material_lib.cpp
@@ -98,7 +98,9 @@ MaterialLib::MaterialLib(const pugi::xml_node &input) : n_material_(0)
 
         regex headExp("^\\s*XSMACRO\\s+([^\\s]+)\\s+([0-9]+)\\s*$");
         smatch results;
-        regex_match(line, results, headExp);
+        if (!regex_match(line, results, headExp)) {
+            throw EXCEPT("Malformed material header in library: " + line);
+        }
         string materialName = results[1].str();
 
         // Read in the non-scattering stuff
@@ -131,9 +133,7 @@ MaterialLib::MaterialLib(const pugi::xml_node &input) : n_material_(0)
 
         // produce a Material object and add it to the library
         lib_materials_.push_back(Material(abs, nuFiss, fiss, chi, scatTable));
-        try {
-            material_names_[materialName] = imat;
-        } catch (...) {
+        if (!material_names_.emplace(materialName, imat).second) {
             throw EXCEPT("Failed to add material from library. Duplicate "
                          "name?");
         }
@@ -188,7 +188,9 @@ MaterialLib::MaterialLib(FileScrubber &input) : n_material_(0)
 
         regex headExp("^\\s*XSMACRO\\s+([^\\s]+)\\s+([0-9]+)\\s*$");
         smatch results;
-        regex_match(line, results, headExp);
+        if (!regex_match(line, results, headExp)) {
+            throw EXCEPT("Malformed material header in library: " + line);
+        }
         string materialName = results[1].str();
 
         // Read in the non-scattering stuff
@@ -228,9 +230,7 @@ MaterialLib::MaterialLib(FileScrubber &input) : n_material_(0)
 
         // produce a Material object and add it to the library
         lib_materials_.push_back(Material(abs, nuFiss, fiss, chi, scatTable));
-        try {
-            material_names_[materialName] = imat;
-        } catch (...) {
+        if (!material_names_.emplace(materialName, imat).second) {
             throw EXCEPT("Failed to add material from library. Duplicate "
                          "name?");
         }
-- 
2.43.0


From 79364a3c75c3c72f7fa484eee4f4a1bcc67c730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:19:25 +0000
Subject: [PATCH 46/63] fix: refuse short scattering rows in material libraries

---
 src/core/material_lib.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/material_lib.cpp b/src/core/material_lib.cpp
index 5357d34..3d850ce 100644
--- a/src/core/material_lib.cpp
+++ b/src/core/material_lib.cpp
@@ -225,6 +225,9 @@ MaterialLib::MaterialLib(FileScrubber &input) : n_material_(0)
                 inBuf >> val;
                 scatRow.push_back(val);
             }
+            if (inBuf.fail()) {
+                throw EXCEPT("Trouble reading scattering row");
+            }
             scatTable.push_back(scatRow);
         }
 
-- 
2.43.0


From 6b515a933cc93bd92a0f4dddc2f9ec5db5917ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:19:33 +0000
Subject: [PATCH 47/63] fix: refuse a material ID that is assigned more than
 once

---
 src/core/material_lib.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/material_lib.cpp b/src/core/material_lib.cpp
index 3d850ce..cf6e2f4 100644
--- a/src/core/material_lib.cpp
+++ b/src/core/material_lib.cpp
@@ -242,6 +242,9 @@ MaterialLib::MaterialLib(FileScrubber &input) : n_material_(0)
 
 void MaterialLib::assignID(int id, std::string name)
 {
+    if (material_ids_.find(id) != material_ids_.end()) {
+        throw EXCEPT("A material ID is assigned more than once.");
+    }
     try {
         LogFile << "Mapping material '" << name << "' to ID " << id
                 << std::endl;
-- 
2.43.0


From 03a4866524c13f0de75306601a24e36f661d91cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:20 +0000
Subject: [PATCH 48/63] fix: report output files that cannot be opened

---
 src/auxiliary/geometry_output.cpp             | 3 +++
 src/solvers/monte_carlo_eigenvalue_solver.cpp | 3 +++
 src/sweepers/moc/moc_sweeper.cpp              | 3 +++
 src/util/files.cpp                            | 7 +++++++
 4 files changed, 16 insertions(+)

diff --git a/src/auxiliary/geometry_output.cpp b/src/auxiliary/geometry_output.cpp
index cbc1e70..80046eb 100644
--- a/src/auxiliary/geometry_output.cpp
+++ b/src/auxiliary/geometry_output.cpp
@@ -46,6 +46,9 @@ void output_geometry(const pugi::xml_node &input, const CoreMesh &mesh)
     }
 
     ofstream out(file);
+    if (!out.is_open()) {
+        throw EXCEPT("Failed to open geometry output file");
+    }
 
     // boilerplate
     out << "import cairo as cr" << std::endl;
diff --git a/src/solvers/monte_carlo_eigenvalue_solver.cpp b/src/solvers/monte_carlo_eigenvalue_solver.cpp
index 565d5a7..bae9466 100644
--- a/src/solvers/monte_carlo_eigenvalue_solver.cpp
+++ b/src/solvers/monte_carlo_eigenvalue_solver.cpp
@@ -191,6 +191,9 @@ void MonteCarloEigenvalueSolver::step()
         std::stringstream fname;
         fname << "sites_" << cycle_;
         std::ofstream f(fname.str());
+        if (!f.is_open()) {
+            throw EXCEPT("Failed to open '" + fname.str() + "'");
+        }
         f << source_bank_;
     }
 
diff --git a/src/sweepers/moc/moc_sweeper.cpp b/src/sweepers/moc/moc_sweeper.cpp
index 1f2a07c..1d711b7 100644
--- a/src/sweepers/moc/moc_sweeper.cpp
+++ b/src/sweepers/moc/moc_sweeper.cpp
@@ -174,6 +174,9 @@ MoCSweeper::MoCSweeper(const pugi::xml_node &input, const CoreMesh &mesh)
 
     if (dump_rays_) {
         std::ofstream rayfile("rays.py");
+        if (!rayfile.is_open()) {
+            throw EXCEPT("Failed to open 'rays.py'");
+        }
         rayfile << rays_ << std::endl;
     }
 
diff --git a/src/util/files.cpp b/src/util/files.cpp
index a95673d..4bc939b 100644
--- a/src/util/files.cpp
+++ b/src/util/files.cpp
@@ -20,6 +20,10 @@
 #include <string.h>
 #include <string>
 
+#include "util/error.hpp"
+
+using mocc::Exception;
+
 std::fstream LogFile;
 std::fstream OutFile;
 
@@ -36,6 +40,9 @@ void StartLogFile(std::string arg)
 
     std::cout << "Logging output to: " << logname << std::endl << std::endl;
     LogFile.open(logname, std::fstream::out);
+    if (!LogFile.is_open()) {
+        throw EXCEPT("Failed to open log file '" + logname + "'");
+    }
 
     LogScreen.reset(std::cout, LogFile);
 
-- 
2.43.0


From ff58e600a72a62a1f59db8a5527012578bba6b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:36 +0000
Subject: [PATCH 49/63] fix: report HDF5 files and groups that cannot be opened

---
 src/util/h5file.cpp | 12 +++++++++---
 src/util/h5file.hpp |  7 ++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/util/h5file.cpp b/src/util/h5file.cpp
index b5e85ee..58d2f5b 100644
--- a/src/util/h5file.cpp
+++ b/src/util/h5file.cpp
@@ -35,10 +35,16 @@ unsigned int convert_access(mocc::H5Access access)
 
 namespace mocc {
 H5Node::H5Node(const char *filename, H5Access access)
-    : file_(new H5::H5File(filename, convert_access(access))),
-      node_(file_),
-      access_(access)
+    : access_(access)
 {
+    try {
+        file_.reset(new H5::H5File(filename, convert_access(access)));
+    } catch (...) {
+        std::stringstream msg;
+        msg << "Failed to open file '" << filename << "'";
+        throw EXCEPT(msg.str());
+    }
+    node_ = file_;
     return;
 }
 
diff --git a/src/util/h5file.hpp b/src/util/h5file.hpp
index 77694f8..b43aa63 100644
--- a/src/util/h5file.hpp
+++ b/src/util/h5file.hpp
@@ -113,7 +113,12 @@ public:
      */
     H5Node operator[](std::string path)
     {
-        std::shared_ptr<H5::CommonFG> g(new H5::Group(node_->openGroup(path)));
+        std::shared_ptr<H5::CommonFG> g;
+        try {
+            g.reset(new H5::Group(node_->openGroup(path)));
+        } catch (...) {
+            throw EXCEPT("Failed to open group '" + path + "'");
+        }
         return H5Node(g, access_);
     }
 
-- 
2.43.0


From 845c2ba3c09c31ea3360eeddec184a9232ea8819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:54 +0000
Subject: [PATCH 50/63] fix: refuse HDF5 data whose shape differs from the
 array

---
 src/util/h5file.cpp |  5 +++++
 src/util/h5file.hpp | 20 ++++++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/util/h5file.cpp b/src/util/h5file.cpp
index 58d2f5b..79c1339 100644
--- a/src/util/h5file.cpp
+++ b/src/util/h5file.cpp
@@ -162,8 +162,13 @@ void H5Node::write(std::string path, const ArrayB1 &data, VecI dims)
     }
     std::vector<hsize_t> dims_a;
     dims_a.reserve(dims.size());
+    size_t size = 1;
     for (const auto &v : dims) {
         dims_a.push_back(v);
+        size *= v;
+    }
+    if (size != (size_t)data.size()) {
+        throw EXCEPT("Dimensions do not match the data: " + path);
     }
 
     try {
diff --git a/src/util/h5file.hpp b/src/util/h5file.hpp
index b43aa63..b922a12 100644
--- a/src/util/h5file.hpp
+++ b/src/util/h5file.hpp
@@ -294,9 +294,6 @@ public:
             throw EXCEPT(msg.str().c_str());
         }
 
-        if ((int)ndim != data.dimensions()) {
-        }
-
         auto shape = data.shape();
         auto size  = data.size();
 
@@ -322,6 +319,10 @@ public:
                 }
             } else {
                 // Make sure the dimensions match
+                if (data.dimensions() != ndim) {
+                    throw EXCEPT(
+                        "Array and dataset dimensionality disagree.");
+                }
                 for (int i = 0; i < ndim; i++) {
                     if (shape[i] != (int)dims[i]) {
                         throw EXCEPT("Incorrect array shape.");
@@ -348,16 +349,22 @@ public:
     {
         H5::DataSet dataset;
         H5::DataSpace dataspace;
+        int h5size = -1;
 
         try {
             dataset   = node_->openDataSet(path);
             dataspace = dataset.getSpace();
+            h5size    = dataspace.getSimpleExtentNpoints();
         } catch (...) {
             std::stringstream msg;
             msg << "Failed to access dataset: " << path;
             throw EXCEPT(msg.str().c_str());
         }
 
+        if (h5size != 1) {
+            throw EXCEPT("Expected a single value: " + path);
+        }
+
         try {
             dataset.read(&data, H5::PredType::NATIVE_INT);
         } catch (...) {
@@ -389,9 +396,10 @@ public:
             dims_a.push_back(di);
         }
 
-        VecF d(n);
-        std::copy(first, last, d.begin());
-        assert((int)d.size() == n);
+        VecF d(first, last);
+        if ((int)d.size() != n) {
+            throw EXCEPT("Dimensions do not match the data: " + path);
+        }
 
         try {
             H5::DataSpace space(dims.size(), dims_a.data());
-- 
2.43.0


From afc5e6334ea0223bcecbd9ffb7568fb93d6d24a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:05:00 +0000
Subject: [PATCH 51/63] fix: check the shapes of quadrature, cross section and
 correction data

---
 src/core/angular_quadrature.cpp       |  3 ++-
 src/core/xs_mesh_homogenized.cpp      | 12 ++++++++++--
 src/sweepers/cmdo/correction_data.cpp |  8 ++++++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/core/angular_quadrature.cpp b/src/core/angular_quadrature.cpp
index 162151b..e23623f 100644
--- a/src/core/angular_quadrature.cpp
+++ b/src/core/angular_quadrature.cpp
@@ -132,7 +132,8 @@ AngularQuadrature::AngularQuadrature(const H5Node &input)
     input.read("ang_quad/n_polar", n_polar_);
 
     if ((ox.size() != oy.size()) || (ox.size() != oz.size()) ||
-        (ox.size() != weights.size())) {
+        (ox.size() != weights.size()) || (ox.size() != alpha.size()) ||
+        (ox.size() != theta.size())) {
         throw EXCEPT("Incompatible data sizes");
     }
 
diff --git a/src/core/xs_mesh_homogenized.cpp b/src/core/xs_mesh_homogenized.cpp
index 9d609c2..e9d0ac9 100644
--- a/src/core/xs_mesh_homogenized.cpp
+++ b/src/core/xs_mesh_homogenized.cpp
@@ -120,7 +120,7 @@ XSMeshHomogenized::XSMeshHomogenized(const CoreMesh &mesh,
         const auto &data = input.child("data");
         H5Node h5d(data.attribute("file").value(), H5Access::READ);
         auto dims = h5d.dimensions("/xsmesh/xstr/0");
-        if ((dims[2] == mesh_.nx()) && (dims[1] == mesh_.ny()) &&
+        if ((dims.size() == 3) && (dims[2] == mesh_.nx()) && (dims[1] == mesh_.ny()) &&
             (dims[0] == mesh_.macroplanes().size())) {
             single_compat = true;
         }
@@ -456,7 +456,8 @@ void XSMeshHomogenized::read_data_single(const pugi::xml_node &data)
     } catch (Exception e) {
         throw EXCEPT_E("Failed to read scattering data", e);
     }
-    if (scat.shape()[0] != (int)regions_.size()) {
+    if ((scat.shape()[0] != (int)regions_.size()) ||
+        (scat.shape()[1] != (int)ng_) || (scat.shape()[2] != (int)ng_)) {
         throw EXCEPT("Scattering data is the wrong size");
     }
 
@@ -501,6 +502,9 @@ void XSMeshHomogenized::read_data_multi(const pugi::xml_node &input)
             // Check the dimensions of the contained XSMesh
             H5Node h5d(data.attribute("file").value(), H5Access::READ);
             auto dims = h5d.dimensions("/xsmesh/xstr/0");
+            if (dims.size() != 3) {
+                throw EXCEPT("Cross section data should be 3-dimensional");
+            }
             if (dims[2] != mesh_.nx()) {
                 std::stringstream msg;
                 msg << "Incorrect XS Mesh dimensions: " << dims[2] << " "
@@ -598,6 +602,10 @@ void XSMeshHomogenized::read_data_multi(const pugi::xml_node &input)
         // as we do the others, so this can be read in more naturally.
         ArrayB3 scat;
         h5d.read("/xsmesh/xssc", scat);
+        if ((scat.shape()[0] != nreg_plane) || (scat.shape()[1] != (int)ng_) ||
+            (scat.shape()[2] != (int)ng_)) {
+            throw EXCEPT("Scattering data is the wrong size");
+        }
 
         // Storing the results of the read above into the appropriate arrays
         // should be sufficient for all cross sections except the scattering
diff --git a/src/sweepers/cmdo/correction_data.cpp b/src/sweepers/cmdo/correction_data.cpp
index dcf0e81..7fcf30f 100644
--- a/src/sweepers/cmdo/correction_data.cpp
+++ b/src/sweepers/cmdo/correction_data.cpp
@@ -49,7 +49,7 @@ void CorrectionData::from_data(const pugi::xml_node &input)
         H5Node h5d(input.child("data").attribute("file").value(),
                    H5Access::READ);
         auto dims = h5d.dimensions("alpha_x/000/000");
-        if ((dims[2] == mesh_->nx()) && (dims[1] == mesh_->ny()) &&
+        if ((dims.size() == 3) && (dims[2] == mesh_->nx()) && (dims[1] == mesh_->ny()) &&
             ((int)dims[0] == np)) {
             single_file = true;
         }
@@ -88,7 +88,11 @@ void CorrectionData::read_data_single(const pugi::xml_node &data,
 
     // The file may contain a single plane, which applies to all of the planes
     // requested, or the entire geometry
-    int n_plane = h5d.dimensions("alpha_x/000/000")[0] == nz_ ? nz_ : 1;
+    auto dims = h5d.dimensions("alpha_x/000/000");
+    if ((dims.size() != 3) || (dims[2] != nx_) || (dims[1] != ny_)) {
+        throw EXCEPT("Correction data is the wrong shape");
+    }
+    int n_plane = dims[0] == nz_ ? nz_ : 1;
     int n_cell  = nx_ * ny_;
 
     // allocate a single buffer to read our data into for each group/angle
-- 
2.43.0


From baf40c86e9325d63faa78e4236fbdd345fb5f4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:05:07 +0000
Subject: [PATCH 52/63] fix: refuse plane ranges whose bottom is above their
 top

---
 src/core/xs_mesh_homogenized.cpp      | 3 +++
 src/sweepers/cmdo/correction_data.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/core/xs_mesh_homogenized.cpp b/src/core/xs_mesh_homogenized.cpp
index e9d0ac9..c7ef39a 100644
--- a/src/core/xs_mesh_homogenized.cpp
+++ b/src/core/xs_mesh_homogenized.cpp
@@ -494,6 +494,9 @@ void XSMeshHomogenized::read_data_multi(const pugi::xml_node &input)
             if ((top_plane < 0) || (top_plane >= np)) {
                 throw EXCEPT("Invalid top_plane");
             }
+            if (bot_plane > top_plane) {
+                throw EXCEPT("bottom_plane is above top_plane");
+            }
 
             if (data.attribute("file").empty()) {
                 throw EXCEPT("No file specified.");
diff --git a/src/sweepers/cmdo/correction_data.cpp b/src/sweepers/cmdo/correction_data.cpp
index 7fcf30f..f411cc9 100644
--- a/src/sweepers/cmdo/correction_data.cpp
+++ b/src/sweepers/cmdo/correction_data.cpp
@@ -186,6 +186,9 @@ void CorrectionData::read_data_multi(const pugi::xml_node &input)
             if ((top_plane < 0) || (top_plane >= np)) {
                 throw EXCEPT("Invalid top_plane");
             }
+            if (bot_plane > top_plane) {
+                throw EXCEPT("bottom_plane is above top_plane");
+            }
 
             if (data.attribute("file").empty()) {
                 throw EXCEPT("No file specified.");
-- 
2.43.0


From da3f7a76c793f73965f73e51d251a68d61c38501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:24:34 +0000
Subject: [PATCH 53/63] fix: ask the current cross sections whether a region is
 fissile

The flag was computed once, when the region was made, and kept its value when
the cross sections of the region were replaced later.
---
 src/core/xs_mesh_region.cpp |  4 ----
 src/core/xs_mesh_region.hpp | 17 ++++++++++++-----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/core/xs_mesh_region.cpp b/src/core/xs_mesh_region.cpp
index d5139c4..92e2708 100644
--- a/src/core/xs_mesh_region.cpp
+++ b/src/core/xs_mesh_region.cpp
@@ -30,12 +30,8 @@ XSMeshRegion::XSMeshRegion(const VecI &fsrs, real_t *xstr, real_t *xsnf,
       xsmacrm_(xsrm),
       xsmacsc_(xssc)
 {
-    is_fissile_ = false;
     for (int ig = 0; ig < this->n_group(); ig++) {
         xsmacrm_[ig] = xsmactr_[ig] - xsmacsc_.self_scat(ig);
-        if (xsmacnf_[ig] > 0.0) {
-            is_fissile_ = true;
-        }
     }
     return;
 }
diff --git a/src/core/xs_mesh_region.hpp b/src/core/xs_mesh_region.hpp
index a083a15..f5ba8f9 100644
--- a/src/core/xs_mesh_region.hpp
+++ b/src/core/xs_mesh_region.hpp
@@ -27,7 +27,12 @@ class XSMeshRegion {
     friend class XSMeshHomogenized;
 
 public:
-    XSMeshRegion() : is_fissile_(false)
+    XSMeshRegion()
+        : xsmactr_(nullptr),
+          xsmacnf_(nullptr),
+          xsmacf_(nullptr),
+          xsmacch_(nullptr),
+          xsmacrm_(nullptr)
     {
         return;
     }
@@ -42,7 +47,12 @@ public:
 
     bool is_fissile() const
     {
-        return is_fissile_;
+        for (int ig = 0; ig < this->n_group(); ig++) {
+            if (xsmacnf_[ig] > 0.0) {
+                return true;
+            }
+        }
+        return false;
     }
 
     const real_t &xsmactr(int ig) const
@@ -227,9 +237,6 @@ private:
     // List of FSR indices that use this XS mesh region
     VecI reg_;
 
-    // Whether or not the region is fissile
-    bool is_fissile_;
-
     // Actual group constants for this XS mesh region
     real_t *xsmactr_;
     real_t *xsmacnf_;
-- 
2.43.0


From 9e1a9aee91bf3fe8d00ac920daee51020f9f16e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:24:40 +0000
Subject: [PATCH 54/63] fix: recognize the dump_corrections option of the Sn
 sweeper

The option is read by the corrected diamond difference sweeper but was
reported as unrecognized.
---
 src/sweepers/sn/sn_sweeper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/sn/sn_sweeper.cpp b/src/sweepers/sn/sn_sweeper.cpp
index 0c75a8e..0310bfd 100644
--- a/src/sweepers/sn/sn_sweeper.cpp
+++ b/src/sweepers/sn/sn_sweeper.cpp
@@ -36,7 +36,8 @@ BC_Size_t boundary_helper(const Mesh &mesh)
 
 const std::vector<std::string> recognized_attributes = {
     "type",  "n_inner",         "equation",
-    "axial", "boundary_update", "update_incoming"};
+    "axial", "boundary_update", "update_incoming",
+    "dump_corrections"};
 }
 
 namespace mocc {
-- 
2.43.0


From c4b9a44ef65b1ac7dcddaa6b3b5478101f0f325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:24:45 +0000
Subject: [PATCH 55/63] fix: report unrecognized options of solvers, threads
 and fission box

A misspelled attribute of a fixed source or Monte Carlo solver, of the
parallel environment or of the fission box was ignored without a word.
---
 src/core/parallel_environment.cpp             | 3 +++
 src/solvers/fixed_source_solver.cpp           | 7 +++++++
 src/solvers/monte_carlo_eigenvalue_solver.cpp | 8 ++++++++
 src/sweepers/mc/fission_bank.cpp              | 4 ++++
 4 files changed, 22 insertions(+)

diff --git a/src/core/parallel_environment.cpp b/src/core/parallel_environment.cpp
index a22609b..746829b 100644
--- a/src/core/parallel_environment.cpp
+++ b/src/core/parallel_environment.cpp
@@ -18,12 +18,15 @@
 #include <omp.h>
 #include "pugixml.hpp"
 #include "util/error.hpp"
+#include "util/validate_input.hpp"
 
 namespace mocc {
 ParallelEnvironment::ParallelEnvironment(const pugi::xml_node &input)
     : num_threads_(1)
 {
     if (!input.empty()) {
+        validate_input(input, {"num_threads"});
+
         num_threads_ =
             input.attribute("num_threads").as_int(0);
 
diff --git a/src/solvers/fixed_source_solver.cpp b/src/solvers/fixed_source_solver.cpp
index 78ce1e3..cbe516f 100644
--- a/src/solvers/fixed_source_solver.cpp
+++ b/src/solvers/fixed_source_solver.cpp
@@ -21,8 +21,14 @@
 #include "util/error.hpp"
 #include "util/files.hpp"
 #include "util/h5file.hpp"
+#include "util/validate_input.hpp"
 #include "transport_sweeper_factory.hpp"
 
+namespace {
+const std::vector<std::string> recognized_attributes = {"type", "max_iter",
+                                                        "flux_tol"};
+}
+
 namespace mocc {
 FixedSourceSolver::FixedSourceSolver(const pugi::xml_node &input,
                                      const CoreMesh &mesh) try
@@ -38,6 +44,7 @@ FixedSourceSolver::FixedSourceSolver(const pugi::xml_node &input,
     // type="fixed_source" do extra stuff.
     if (type == "fixed_source") {
         fixed_source_ = true;
+        validate_input(input, recognized_attributes);
         LogFile << "Using an explicitly-defined fixed source solver"
                 << std::endl;
 
diff --git a/src/solvers/monte_carlo_eigenvalue_solver.cpp b/src/solvers/monte_carlo_eigenvalue_solver.cpp
index bae9466..852ca0d 100644
--- a/src/solvers/monte_carlo_eigenvalue_solver.cpp
+++ b/src/solvers/monte_carlo_eigenvalue_solver.cpp
@@ -21,12 +21,18 @@
 #include "util/error.hpp"
 #include "util/files.hpp"
 #include "util/utils.hpp"
+#include "util/validate_input.hpp"
 #include "mc/fission_bank.hpp"
 
 namespace {
 const int WIDTH = 15;
 }
 
+namespace {
+const std::vector<std::string> recognized_attributes = {
+    "type", "cycles", "inactive_cycles", "particles_per_cycle", "seed"};
+}
+
 namespace mocc {
 namespace mc {
 MonteCarloEigenvalueSolver::MonteCarloEigenvalueSolver(
@@ -57,6 +63,8 @@ MonteCarloEigenvalueSolver::MonteCarloEigenvalueSolver(
                      "be empty.");
     }
 
+    validate_input(input, recognized_attributes);
+
     if (seed_ % 2 == 0) {
         throw EXCEPT("The RNG seed should be odd.");
     }
diff --git a/src/sweepers/mc/fission_bank.cpp b/src/sweepers/mc/fission_bank.cpp
index bbc257b..770fdf8 100644
--- a/src/sweepers/mc/fission_bank.cpp
+++ b/src/sweepers/mc/fission_bank.cpp
@@ -20,6 +20,7 @@
 #include "pugixml.hpp"
 #include "util/error.hpp"
 #include "util/fp_utils.hpp"
+#include "util/validate_input.hpp"
 
 namespace mocc {
 namespace mc {
@@ -41,6 +42,9 @@ FissionBank::FissionBank(const pugi::xml_node &input, int n,
         throw EXCEPT("Invalid number of particles per cycle specified");
     }
 
+    validate_input(input, {"x_min", "x_max", "y_min", "y_max", "z_min", "z_max",
+                           "fissile_rejection"});
+
     int ng = xs_mesh.n_group();
 
     // Make sure that all of the bounds are specified.
-- 
2.43.0


From 6af9611ec5e0ee2b2b2cbdd85cb80ef55e4d72f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:24:52 +0000
Subject: [PATCH 56/63] fix: refuse source options that the 2D3D sweeper
 ignores

The sweeper made an isotropic source without external contribution whatever
scattering treatment or source file the input asked for.
---
 src/sweepers/cmdo/plane_sweeper_2d3d.cpp | 19 +++++++++++++++++++
 src/sweepers/cmdo/plane_sweeper_2d3d.hpp |  8 +-------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/sweepers/cmdo/plane_sweeper_2d3d.cpp b/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
index 3f913b7..198518a 100644
--- a/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
+++ b/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
@@ -22,6 +22,7 @@
 #include <numeric>
 #include "util/error.hpp"
 #include "util/range.hpp"
+#include "util/string_utils.hpp"
 #include "util/validate_input.hpp"
 #include "sn_sweeper_factory_cdd.hpp"
 
@@ -355,6 +356,24 @@ void PlaneSweeper_2D3D::output(H5Node &file) const
     }
 }
 
+////////////////////////////////////////////////////////////////////////////////
+UP_Source_t PlaneSweeper_2D3D::create_source(const pugi::xml_node &input) const
+{
+    std::cout << "creating 2d3d source" << std::endl;
+
+    std::string scattering = input.attribute("scattering").value();
+    sanitize(scattering);
+    if (!scattering.empty() && (scattering != "p0")) {
+        throw EXCEPT("Only P0 scattering is supported by the 2D3D sweeper.");
+    }
+    if (!input.attribute("file").empty()) {
+        throw EXCEPT("External sources are not supported by the 2D3D sweeper.");
+    }
+
+    auto source = UP_Source_t(new Source_2D3D(moc_sweeper_, *sn_sweeper_));
+    return source;
+}
+
 ////////////////////////////////////////////////////////////////////////////////
 // At some point it might be nice to make the options const and initialized
 // them in the initializer list, then just check for validity later. This if
diff --git a/src/sweepers/cmdo/plane_sweeper_2d3d.hpp b/src/sweepers/cmdo/plane_sweeper_2d3d.hpp
index a306a9c..e529056 100644
--- a/src/sweepers/cmdo/plane_sweeper_2d3d.hpp
+++ b/src/sweepers/cmdo/plane_sweeper_2d3d.hpp
@@ -127,13 +127,7 @@ public:
      * based on the input to the \<source /\> tag, which is better done by
      * the Source constructor. Clean this up
      */
-    UP_Source_t create_source(const pugi::xml_node &input) const override final
-    {
-        std::cout << "creating 2d3d source" << std::endl;
-
-        auto source = UP_Source_t(new Source_2D3D(moc_sweeper_, *sn_sweeper_));
-        return source;
-    }
+    UP_Source_t create_source(const pugi::xml_node &input) const override final;
 
     SP_XSMeshHomogenized_t get_homogenized_xsmesh() override final
     {
-- 
2.43.0


From 0bfefd265fd323847a4f79b206dabf612d57dbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:25:00 +0000
Subject: [PATCH 57/63] fix: refuse invalid 2D3D options, polar angles and
 cores without fuel

A negative number of inactive sweeps, a relaxation factor that is not positive,
a polar angle of zero and an eigenvalue problem without a fissile region led to
meaningless results or division by zero.
---
 src/core/geometry/angle.cpp              | 2 +-
 src/solvers/eigen_solver.cpp             | 3 +++
 src/sweepers/cmdo/plane_sweeper_2d3d.cpp | 8 +++++++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/angle.cpp b/src/core/geometry/angle.cpp
index 340519b..c7ef11b 100644
--- a/src/core/geometry/angle.cpp
+++ b/src/core/geometry/angle.cpp
@@ -89,7 +89,7 @@ Angle::Angle(const pugi::xml_node &input)
         // vertical polar angles. Azimuthal angle is allowed to be zero, but
         // less than 2*pi, to avoid overlapping angles on the positive
         // x-axis.
-        if (theta <= -HPI || theta >= HPI) {
+        if (theta <= -HPI || theta >= HPI || theta == 0.0) {
             throw EXCEPT("Invalid polar angle.");
         }
         if ((alpha < 0.0) || (alpha >= TWOPI) || (alpha == 0.0) ||
diff --git a/src/solvers/eigen_solver.cpp b/src/solvers/eigen_solver.cpp
index b71884e..aa68d4a 100644
--- a/src/solvers/eigen_solver.cpp
+++ b/src/solvers/eigen_solver.cpp
@@ -107,6 +107,9 @@ EigenSolver::EigenSolver(const pugi::xml_node &input, const CoreMesh &mesh)
             n_fissile_regions_ += xsr.reg().size();
         }
     }
+    if (n_fissile_regions_ == 0) {
+        throw EXCEPT("There are no fissile regions.");
+    }
 
     // CMFD acceleration
     bool do_cmfd = input.attribute("cmfd").as_bool(false);
diff --git a/src/sweepers/cmdo/plane_sweeper_2d3d.cpp b/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
index 198518a..a251811 100644
--- a/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
+++ b/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
@@ -407,7 +407,10 @@ void PlaneSweeper_2D3D::parse_options(const pugi::xml_node &input)
         do_tl_ = input.attribute("tl").as_bool();
     }
     if (!input.attribute("inactive_moc").empty()) {
-        n_inactive_moc_ = input.attribute("inactive_moc").as_int();
+        n_inactive_moc_ = input.attribute("inactive_moc").as_int(-1);
+        if (n_inactive_moc_ < 0) {
+            throw EXCEPT("Number of inactive MoC iterations is invalid.");
+        }
     }
     if (!input.attribute("moc_modulo").empty()) {
         moc_modulo_ = input.attribute("moc_modulo").as_int();
@@ -420,6 +423,9 @@ void PlaneSweeper_2D3D::parse_options(const pugi::xml_node &input)
     }
     if (!input.attribute("relax").empty()) {
         relax_ = input.attribute("relax").as_double(1.0);
+        if (relax_ <= 0.0) {
+            throw EXCEPT("Relaxation factor must be positive.");
+        }
     }
     if (!input.attribute("discrepant_flux_update").empty()) {
         discrepant_flux_update_ =
-- 
2.43.0


From 6c77f676b295d14fac27e5770266e8492034e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:25:04 +0000
Subject: [PATCH 58/63] fix: initialize the limits of a fixed source solver

They were left indeterminate when the solver serves an eigenvalue solver.
---
 src/solvers/fixed_source_solver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solvers/fixed_source_solver.cpp b/src/solvers/fixed_source_solver.cpp
index cbe516f..a865442 100644
--- a/src/solvers/fixed_source_solver.cpp
+++ b/src/solvers/fixed_source_solver.cpp
@@ -36,7 +36,9 @@ FixedSourceSolver::FixedSourceSolver(const pugi::xml_node &input,
       source_(sweeper_->create_source(input.child("source"))),
       fs_(nullptr),
       ng_(sweeper_->n_group()),
-      fixed_source_(false) {
+      fixed_source_(false),
+      max_iter_(0),
+      flux_tol_(0.0) {
     LogFile << "Initializing Fixed-Source solver..." << std::endl;
 
     std::string type = input.attribute("type").value();
-- 
2.43.0


From e64ec249d0916e76d50346322a86a788231401c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:12 +0000
Subject: [PATCH 59/63] fix: refuse grid dimensions smaller than one

Lattice, assembly and core dimensions were read into unsigned members, so a pair of negative values passed the check against the number of entries.
---
 src/core/assembly.cpp | 5 +++--
 src/core/core.cpp     | 8 ++++++--
 src/core/lattice.cpp  | 8 +++++---
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/core/assembly.cpp b/src/core/assembly.cpp
index cd2fca9..d73df71 100644
--- a/src/core/assembly.cpp
+++ b/src/core/assembly.cpp
@@ -37,12 +37,13 @@ Assembly::Assembly(const pugi::xml_node &input,
     }
 
     // Parse number of planes
-    nz_ = input.attribute("np").as_int(0);
-    if (nz_ == 0) {
+    int nz = input.attribute("np").as_int(0);
+    if (nz < 1) {
         throw EXCEPT(
             "Invalid number of planes (nz) when parsing "
             "assembly.");
     }
+    nz_ = nz;
 
     // Parse plane heights (scalar form)
     if (!(input.attribute("hz").empty() ^ input.child("hz").empty())) {
diff --git a/src/core/core.cpp b/src/core/core.cpp
index 5db1fae..d0272cf 100644
--- a/src/core/core.cpp
+++ b/src/core/core.cpp
@@ -45,12 +45,16 @@ Core::Core()
 
 Core::Core(const pugi::xml_node &input,
            const std::map<int, UP_Assembly_t> &assemblies)
-    : nx_(input.attribute("nx").as_int(0)), ny_(input.attribute("ny").as_int(0))
+    : nx_(0), ny_(0)
 {
+    int nx = input.attribute("nx").as_int(0);
+    int ny = input.attribute("ny").as_int(0);
     // Make sure that we read the a proper ID
-    if ((nx_ < 1) | (ny_ < 1)) {
+    if ((nx < 1) || (ny < 1)) {
         throw EXCEPT("Invalid core dimensions.");
     }
+    nx_ = nx;
+    ny_ = ny;
 
     // Read in the boundary conditions
     bc_[(int)Surface::NORTH]  = bc_parse(input, "north");
diff --git a/src/core/lattice.cpp b/src/core/lattice.cpp
index 8e876cb..8e946a0 100644
--- a/src/core/lattice.cpp
+++ b/src/core/lattice.cpp
@@ -38,11 +38,13 @@ Lattice::Lattice(const pugi::xml_node &input,
     }
 
     // Get dimensions
-    nx_ = input.attribute("nx").as_int(0);
-    ny_ = input.attribute("ny").as_int(0);
-    if ((nx_ == 0) | (ny_ == 0)) {
+    int nx = input.attribute("nx").as_int(0);
+    int ny = input.attribute("ny").as_int(0);
+    if ((nx < 1) || (ny < 1)) {
         throw EXCEPT("Trouble reading lattice dimensions.");
     }
+    nx_ = nx;
+    ny_ = ny;
 
     auto pin_ids = explode_string<int>(input.child_value());
     if (pin_ids.size() != nx_ * ny_) {
-- 
2.43.0


From c938bcb64a1c95f19fb36a94f78d874ecf3da224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:16 +0000
Subject: [PATCH 60/63] fix: refuse angles with a direction cosine of zero

The sweeps divide by each cosine.
---
 src/core/geometry/angle.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/geometry/angle.cpp b/src/core/geometry/angle.cpp
index c7ef11b..f1ce5c4 100644
--- a/src/core/geometry/angle.cpp
+++ b/src/core/geometry/angle.cpp
@@ -54,14 +54,14 @@ Angle::Angle(const pugi::xml_node &input)
         // The valid range for direction cosines is exclusive, since we
         // assume that angles lie unambiguously within an octant, and
         // therefore should not lie directly on any of the axes.
-        if (ox <= -1.0 || ox >= 1.0) {
+        if (ox <= -1.0 || ox >= 1.0 || ox == 0.0) {
             throw EXCEPT("Invalid ox in angle.");
         }
-        if (oy <= -1.0 || oy >= 1.0) {
+        if (oy <= -1.0 || oy >= 1.0 || oy == 0.0) {
             std::cout << oy << std::endl;
             throw EXCEPT("Invalid oy in angle.");
         }
-        if (oz <= -1.0 || oz >= 1.0) {
+        if (oz <= -1.0 || oz >= 1.0 || oz == 0.0) {
             throw EXCEPT("Invalid oz in angle.");
         }
         if (!fp_equiv_ulp(sqrt(ox * ox + oy * oy + oz * oz), 1.0)) {
-- 
2.43.0


From dbee619ff1b33bb66845a2acebb74f7df85ff615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:23 +0000
Subject: [PATCH 61/63] fix: refuse materials without an identifier and
 libraries without groups

---
 src/core/material_lib.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/material_lib.cpp b/src/core/material_lib.cpp
index cf6e2f4..456c279 100644
--- a/src/core/material_lib.cpp
+++ b/src/core/material_lib.cpp
@@ -69,7 +69,7 @@ MaterialLib::MaterialLib(const pugi::xml_node &input) : n_material_(0)
         matLibFile.getline();
         stringstream inBuf(matLibFile.getline());
         inBuf >> n_grp_;
-        if (inBuf.fail()) {
+        if (inBuf.fail() || (n_grp_ == 0)) {
             throw EXCEPT("Failed to read number of groups!");
         }
         inBuf >> n_material_lib_;
@@ -142,6 +142,9 @@ MaterialLib::MaterialLib(const pugi::xml_node &input) : n_material_(0)
     // Parse material IDs
     for (auto mat = input.child("material"); mat;
          mat      = mat.next_sibling("material")) {
+        if (mat.attribute("id").as_int(0) == 0) {
+            throw EXCEPT("Failed to read material ID.");
+        }
         this->assignID(mat.attribute("id").as_int(),
                        mat.attribute("name").value());
     }
@@ -159,7 +162,7 @@ MaterialLib::MaterialLib(FileScrubber &input) : n_material_(0)
         input.getline();
         stringstream inBuf(input.getline());
         inBuf >> n_grp_;
-        if (inBuf.fail()) {
+        if (inBuf.fail() || (n_grp_ == 0)) {
             throw EXCEPT("Failed to read number of groups!");
         }
         inBuf >> n_material_lib_;
-- 
2.43.0


From 312aa9baa494b90278315f971da463081c1ac4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:27 +0000
Subject: [PATCH 62/63] fix: copy the stored values of a boundary condition

The copy constructor built a boundary condition of the same shape but left its values unset.
---
 src/core/boundary_condition.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/boundary_condition.cpp b/src/core/boundary_condition.cpp
index 0026fe5..d41121b 100644
--- a/src/core/boundary_condition.cpp
+++ b/src/core/boundary_condition.cpp
@@ -81,6 +81,7 @@ BoundaryCondition::BoundaryCondition(const BoundaryCondition &rhs)
     : BoundaryCondition(rhs.n_group_, rhs.ang_quad_, rhs.bc_, rhs.size_,
             (rhs.factor_==2.0?2:3))
 {
+    data_ = rhs.data_;
     return;
 }
 
-- 
2.43.0


From f03604240bd9eab5f95473a3c6c97a719d51cba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:31 +0000
Subject: [PATCH 63/63] fix: begin the number of expanded regions at zero

A cross-section mesh made for pin cells left it without a value.
---
 src/core/xs_mesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/xs_mesh.cpp b/src/core/xs_mesh.cpp
index aec711f..63ad408 100644
--- a/src/core/xs_mesh.cpp
+++ b/src/core/xs_mesh.cpp
@@ -24,7 +24,8 @@
 #include "util/global_config.hpp"
 
 namespace mocc {
-XSMesh::XSMesh(const CoreMesh &mesh, MeshTreatment treatment) : state_(0)
+XSMesh::XSMesh(const CoreMesh &mesh, MeshTreatment treatment)
+    : n_reg_expanded_(0), state_(0)
 {
 
     LogFile << "Initializing XS Mesh... ";
-- 
2.43.0

