#include "core/coarse_data.hpp"
#include "core/core_mesh.hpp"
#include "solvers/fixed_source_solver.hpp"
#include "sweepers/cmdo/plane_sweeper_2d3d.hpp"
#include "sweepers/moc/moc_sweeper.hpp"
#include "sweepers/moc/moc_current_worker.hpp"
#include "sweepers/cmdo/correction_worker.hpp"
#include "sweepers/sn/sn_current_worker.hpp"
#include "sweepers/sn/sn_sweeper_dd.hpp"
#include "common.hpp"
#include <algorithm>
using namespace mocc::cmdo;

namespace ref {
// Every tally of the discrete ordinates sweepers: the current along the axis
// and the flux, both weighted by the share of the direction in the full sphere.
void fn__tally(sn::Current &self, size_t cell, Surface s, int group, real_t cosine, real_t w, real_t psi)
{
    int surf = self.mesh_->coarse_surf(cell, s);
    self.data_->current(surf, group) += cosine * w * psi;
    self.data_->surface_flux(surf, group) += w * psi;
}

void sn__upwind(sn::Current &self, const real_t *x, const real_t *y, const real_t *z, const Angle &ang, int group)
{
    int nx   = self.mesh_->nx();
    int ny   = self.mesh_->ny();
    int nz   = self.mesh_->nz();
    real_t w = ang.weight * (PI / 2.0);
    for (int iz = 0; iz < nz; iz++) {
        for (int iy = 0; iy < ny; iy++) {
            fn__tally(self, self.mesh_->coarse_cell(Position(ang.ox < 0.0 ? nx - 1 : 0, iy, iz)), self.upwind_x_, group,
                      ang.ox, w, x[ny * iz + iy]);
        }
    }
    for (int iz = 0; iz < nz; iz++) {
        for (int ix = 0; ix < nx; ix++) {
            fn__tally(self, self.mesh_->coarse_cell(Position(ix, ang.oy < 0.0 ? ny - 1 : 0, iz)), self.upwind_y_, group,
                      ang.oy, w, y[nx * iz + ix]);
        }
    }
    for (int iy = 0; iy < ny; iy++) {
        for (int ix = 0; ix < nx; ix++) {
            fn__tally(self, self.mesh_->coarse_cell(Position(ix, iy, ang.oz < 0.0 ? nz - 1 : 0)), self.upwind_z_, group,
                      ang.oz, w, z[nx * iy + ix]);
        }
    }
}

void sn__upwind_2d(sn::Current &self, const real_t *x, const real_t *y, const Angle &ang, int group)
{
    int nx   = self.mesh_->nx();
    int ny   = self.mesh_->ny();
    real_t w = ang.weight * PI;
    for (int iy = 0; iy < ny; iy++) {
        fn__tally(self, self.mesh_->coarse_cell(Position(ang.ox < 0.0 ? nx - 1 : 0, iy, 0)), self.upwind_x_, group, ang.ox,
                  w, x[iy]);
    }
    for (int ix = 0; ix < nx; ix++) {
        fn__tally(self, self.mesh_->coarse_cell(Position(ix, ang.oy < 0.0 ? ny - 1 : 0, 0)), self.upwind_y_, group, ang.oy,
                  w, y[ix]);
    }
}

void sn__current(sn::Current &self, real_t psi_x, real_t psi_y, real_t psi_z, size_t i, Angle &ang, int group)
{
    real_t w = ang.weight * (PI / 2.0);
    fn__tally(self, i, self.downwind_x_, group, ang.ox, w, psi_x);
    fn__tally(self, i, self.downwind_y_, group, ang.oy, w, psi_y);
    fn__tally(self, i, self.downwind_z_, group, ang.oz, w, psi_z);
}

void sn__current_2d(sn::Current &self, real_t psi_x, real_t psi_y, size_t i, Angle &ang, int group)
{
    real_t w = ang.weight * PI;
    fn__tally(self, i, self.downwind_x_, group, ang.ox, w, psi_x);
    fn__tally(self, i, self.downwind_y_, group, ang.oy, w, psi_y);
}

void sn__octant(sn::Current &self, Angle ang)
{
    bool east         = ang.ox > 0.0;
    bool north        = ang.oy > 0.0;
    bool up           = ang.oz > 0.0;
    self.downwind_x_ = east ? Surface::EAST : Surface::WEST;
    self.upwind_x_   = east ? Surface::WEST : Surface::EAST;
    self.downwind_y_ = north ? Surface::NORTH : Surface::SOUTH;
    self.upwind_y_   = north ? Surface::SOUTH : Surface::NORTH;
    self.downwind_z_ = up ? Surface::TOP : Surface::BOTTOM;
    self.upwind_z_   = up ? Surface::BOTTOM : Surface::TOP;
}

void moc__group(moc::Current &self, int group)
{
    self.group_ = group;
}

void moc__plane(moc::Current &self, int plane)
{
    self.plane_       = plane;
    self.cell_offset_ = self.mesh_->coarse_cell_offset(plane);
    self.surf_offset_ = self.mesh_->coarse_surf_offset(plane);
}

// A ray stands for a strip of the surface as wide as the spacing projected on
// it, and as high as the plane.
void moc__angle(moc::Current &self, Angle ang, real_t spacing)
{
    real_t strip_x           = spacing / std::abs(std::cos(ang.alpha)) * self.mesh_->dz(self.plane_);
    real_t strip_y           = spacing / std::abs(std::sin(ang.alpha)) * self.mesh_->dz(self.plane_);
    self.flux_weights_[0]    = PI * ang.weight * strip_x;
    self.flux_weights_[1]    = PI * ang.weight * strip_y;
    self.current_weights_[0] = PI * ang.weight * strip_x * ang.ox;
    self.current_weights_[1] = PI * ang.weight * strip_y * ang.oy;
}

void fn__deposit(moc::Current &self, int surf, int normal, real_t psi, real_t sign)
{
    self.coarse_data_->current(surf, self.group_) += sign * psi * self.current_weights_[normal];
    self.coarse_data_->surface_flux(surf, self.group_) += psi * self.flux_weights_[normal];
}

void moc__ray(moc::Current &self, const std::vector<real_t> &psi1, const std::vector<real_t> &psi2, const ArrayB1 &e_tau,
              const moc::Ray &ray, int first_reg)
{
    int cell_fw = self.cell_offset_ + ray.cm_cell_fw();
    int cell_bw = self.cell_offset_ + ray.cm_cell_bw();
    int surf_fw = self.surf_offset_ + ray.cm_surf_fw();
    int surf_bw = self.surf_offset_ + ray.cm_surf_bw();
    int fw      = 0;
    int bw      = ray.nseg();
    fn__deposit(self, surf_fw, (int)self.mesh_->surface_normal(surf_fw), psi1[fw], 1.0);
    fn__deposit(self, surf_bw, (int)self.mesh_->surface_normal(surf_bw), psi2[bw], -1.0);
    for (const auto &c : ray.cm_data()) {
        if (c.fw != Surface::INVALID) {
            fw += c.nseg_fw;
            fn__deposit(self, self.mesh_->coarse_surf(cell_fw, c.fw), (int)surface_to_normal(c.fw), psi1[fw], 1.0);
        }
        if (c.bw != Surface::INVALID) {
            bw -= c.nseg_bw;
            fn__deposit(self, self.mesh_->coarse_surf(cell_bw, c.bw), (int)surface_to_normal(c.bw), psi2[bw], -1.0);
        }
        cell_fw = self.mesh_->coarse_neighbor(cell_fw, c.fw);
        cell_bw = self.mesh_->coarse_neighbor(cell_bw, c.bw);
    }
}

// Tallies are divided by the area of the surface they were made on, then
// repeated on every plane that the swept plane stands for.
void moc__sweep(moc::Current &self)
{
    auto current      = self.coarse_data_->current(blitz::Range::all(), self.group_);
    auto surface_flux = self.coarse_data_->surface_flux(blitz::Range::all(), self.group_);
    for (int plane = 0; plane < (int)self.mesh_->nz(); plane++) {
        for (int s = self.mesh_->plane_surf_xy_begin(plane); s != (int)self.mesh_->plane_surf_end(plane); s++) {
            current(s) /= self.mesh_->coarse_area(s);
            surface_flux(s) /= self.mesh_->coarse_area(s);
        }
    }
    if ((int)self.mesh_->nz() - 1 == self.mesh_->macroplane_index().back()) {
        return;
    }
    int iz = self.mesh_->nz() - 1;
    for (auto ip = self.mesh_->macroplane_index().crbegin(); ip != self.mesh_->macroplane_index().crend(); ++ip) {
        blitz::Range to(self.mesh_->plane_surf_xy_begin(iz), self.mesh_->plane_surf_end(iz) - 1);
        blitz::Range from(self.mesh_->plane_surf_xy_begin(*ip), self.mesh_->plane_surf_end(*ip) - 1);
        self.coarse_data_->current(to, self.group_)      = self.coarse_data_->current(from, self.group_);
        self.coarse_data_->surface_flux(to, self.group_) = self.coarse_data_->surface_flux(from, self.group_);
        iz--;
    }
}

void CurrentCorrections__set_group(CurrentCorrections &self, int group)
{
    self.group_    = group;
    self.residual_ = {{0.0, 0.0, 0.0}};
}

std::array<real_t, 3> CurrentCorrections__residual(const CurrentCorrections &self)
{
    std::array<real_t, 3> norm = self.residual_;
    norm[0] = std::sqrt(self.residual_[0]);
    norm[1] = std::sqrt(self.residual_[1]);
    norm[2] = std::sqrt(self.residual_[2]);
    return norm;
}

void CurrentCorrections__set_plane(CurrentCorrections &self, int plane)
{
    moc__plane(self, plane);
    self.cell_offset_xs_ = self.mplane_offset_[plane];
}

void CurrentCorrections__set_angle(CurrentCorrections &self, Angle ang, real_t spacing)
{
    moc__angle(self, ang, spacing);
    self.ang_       = ang;
    self.surf_sum_  = 0.0;
    self.surf_norm_ = 0.0;
    self.vol_sum_   = 0.0;
    self.vol_norm_  = 0.0;
    self.sigt_sum_  = 0.0;
}

// On a surface of the plane: the current and flux tallies, plus the mean of the
// angular flux by sense (0 forward, 1 backward).
void fn__surface(CurrentCorrections &self, int surf, int normal, real_t psi, int sense)
{
    fn__deposit(self, surf + self.surf_offset_, normal, psi, sense == 0 ? 1.0 : -1.0);
    self.surf_sum_(surf * 2 + sense) += psi;
    self.surf_norm_(surf * 2 + sense) += 1.0;
}

void fn__segment(CurrentCorrections &self, int cell, int reg, real_t fluxvol, int sense)
{
    self.vol_sum_(cell * 2 + sense) += fluxvol;
    self.sigt_sum_(cell * 2 + sense) += self.xstr_true_[reg] * fluxvol;
}

void CurrentCorrections__post_ray(CurrentCorrections &self, const std::vector<real_t> &psi1, const std::vector<real_t> &psi2,
                                  const ArrayB1 &e_tau, const moc::Ray &ray, int first_reg)
{
    int cell_fw = ray.cm_cell_fw();
    int cell_bw = ray.cm_cell_bw();
    int fw      = 0;
    int bw      = ray.nseg();
    fn__surface(self, ray.cm_surf_fw(), (int)self.mesh_->surface_normal(ray.cm_surf_fw()), psi1[fw], 0);
    fn__surface(self, ray.cm_surf_bw(), (int)self.mesh_->surface_normal(ray.cm_surf_bw()), psi2[bw], 1);
    for (const auto &c : ray.cm_data()) {
        if (c.fw != Surface::INVALID) {
            for (unsigned i = 0; i < c.nseg_fw; i++) {
                int reg  = ray.seg_index(fw) + first_reg;
                real_t t = self.ang_.rsintheta * ray.seg_len(fw);
                fn__segment(self, cell_fw, reg, t * self.qbar_(reg) + (psi1[fw] - psi1[fw + 1]) / self.xstr_split_[reg], 0);
                self.vol_norm_(cell_fw) += t;
                fw++;
            }
            fn__surface(self, self.mesh_->coarse_surf(cell_fw, c.fw), (int)surface_to_normal(c.fw), psi1[fw], 0);
        }
        if (c.bw != Surface::INVALID) {
            for (unsigned i = 0; i < c.nseg_bw; i++) {
                bw--;
                int reg  = ray.seg_index(bw) + first_reg;
                real_t t = self.ang_.rsintheta * ray.seg_len(bw);
                fn__segment(self, cell_bw, reg,
                            t * self.qbar_(reg) + e_tau(bw) * (psi2[bw + 1] - self.qbar_(reg)) / self.xstr_split_[reg], 1);
            }
            fn__surface(self, self.mesh_->coarse_surf(cell_bw, c.bw), (int)surface_to_normal(c.bw), psi2[bw], 1);
        }
        cell_fw = self.mesh_->coarse_neighbor(cell_fw, c.fw);
        cell_bw = self.mesh_->coarse_neighbor(cell_bw, c.bw);
    }
}

void CurrentCorrections__post_angle(CurrentCorrections &self, int iang)
{
    for (size_t i = 0; i < self.vol_norm_.size(); i++) {
        self.sigt_sum_(2 * i) /= self.vol_sum_(2 * i);
        self.vol_sum_(2 * i) /= self.vol_norm_(i);
        self.sigt_sum_(2 * i + 1) /= self.vol_sum_(2 * i + 1);
        self.vol_sum_(2 * i + 1) /= self.vol_norm_(i);
    }
    self.calculate_corrections(iang, self.group_);
}

void CoarseData__zero_data(CoarseData &self, int group, bool zero_partial)
{
    self.current(blitz::Range::all(), group)      = 0.0;
    self.surface_flux(blitz::Range::all(), group) = 0.0;
    if (zero_partial) {
        const std::array<real_t, 2> zero = {{0.0, 0.0}};
        self.partial_current(blitz::Range::all(), group) = zero;
    }
}

void CoarseData__zero_data_radial(CoarseData &self, int group, bool zero_partial)
{
    const std::array<real_t, 2> zero = {{0.0, 0.0}};
    for (int p = 0; p < (int)self.mesh_.nz(); p++) {
        for (int s = self.mesh_.plane_surf_xy_begin(p); s != self.mesh_.plane_surf_end(p); s++) {
            self.current(s, group)      = 0.0;
            self.surface_flux(s, group) = 0.0;
            if (zero_partial) {
                self.partial_current(s, group) = zero;
            }
        }
    }
}

Normal fn__surface_to_normal(Surface s)
{
    if (s == Surface::EAST || s == Surface::WEST) {
        return Normal::X_NORM;
    }
    if (s == Surface::NORTH || s == Surface::SOUTH) {
        return Normal::Y_NORM;
    }
    if (s == Surface::TOP || s == Surface::BOTTOM) {
        return Normal::Z_NORM;
    }
    throw EXCEPT("no such face");
}

// One sweep over all directions and cells; the worker sees the flux on the
// upwind faces of the domain and on the downwind faces of every cell.
template <typename W> void fn__sn_3d(sn::SnSweeperVariant<sn::SnSweeper_DD> &self, int group)
{
    int nx        = self.mesh_.nx();
    int ny        = self.mesh_.ny();
    int nz        = self.mesh_.nz();
    self.flux_1g_ = 0.0;
    W worker(self.coarse_data_, &self.mesh_);
    ArrayB1 sum(self.n_reg_);
    sum = 0.0;
    sn::SnSweeperVariant<sn::SnSweeper_DD>::ThreadState state;
    for (int iang = 0; iang < self.ang_quad_.ndir(); iang++) {
        Angle angle = self.ang_quad_[iang];
        state.iang    = iang;
        state.iang_2d = iang % (self.ang_quad_.ndir() / 2);
        state.angle   = angle;
        state.ox      = angle.ox < 0.0 ? -angle.ox : angle.ox;
        state.oy      = angle.oy < 0.0 ? -angle.oy : angle.oy;
        state.oz      = angle.oz < 0.0 ? -angle.oz : angle.oz;
        real_t w  = angle.weight * (PI / 2.0);
        bool west = angle.ox < 0.0;
        bool south = angle.oy < 0.0;
        bool down = angle.oz < 0.0;
        worker.set_octant(angle);
        auto &q   = self.source_->get_transport(iang);
        real_t *x = self.bc_out_.get_face(0, iang, Normal::X_NORM).second;
        real_t *y = self.bc_out_.get_face(0, iang, Normal::Y_NORM).second;
        real_t *z = self.bc_out_.get_face(0, iang, Normal::Z_NORM).second;
        self.bc_in_.copy_face(group, iang, Normal::X_NORM, x);
        self.bc_in_.copy_face(group, iang, Normal::Y_NORM, y);
        self.bc_in_.copy_face(group, iang, Normal::Z_NORM, z);
        worker.upwind_work(x, y, z, angle, group);
        int xdir = west ? -1 : 1;
        int ydir = south ? -1 : 1;
        int zdir = down ? -1 : 1;
        for (int iz = down ? nz - 1 : 0; iz != (down ? -1 : nz); iz += zdir) {
            state.tz         = state.oz / self.mesh_.dz(iz);
            state.macroplane = self.macroplanes_[iz];
            for (int iy = south ? ny - 1 : 0; iy != (south ? -1 : ny); iy += ydir) {
                state.ty = state.oy / self.mesh_.dy(iy);
                for (int ix = west ? nx - 1 : 0; ix != (west ? -1 : nx); ix += xdir) {
                    real_t psi_x = x[ny * iz + iy];
                    real_t psi_y = y[nx * iz + ix];
                    real_t psi_z = z[nx * iy + ix];
                    int i        = self.mesh_.coarse_cell(Position(ix, iy, iz));
                    real_t psi   = self.evaluate(psi_x, psi_y, psi_z, q[i], self.xstr_[i], i, state);
                    x[ny * iz + iy] = psi_x;
                    y[nx * iz + ix] = psi_y;
                    z[nx * iy + ix] = psi_z;
                    sum(i) += psi * w;
                    worker.current_work(psi_x, psi_y, psi_z, i, angle, group);
                }
            }
        }
        if (self.gs_boundary_) {
            self.bc_in_.update(group, iang, self.bc_out_);
        }
    }
    if (!self.gs_boundary_) {
        self.bc_in_.update(group, self.bc_out_);
    }
    self.flux_1g_ += sum;
}

template <typename W> void fn__sn_2d(sn::SnSweeperVariant<sn::SnSweeper_DD> &self, int group)
{
    int nx        = self.mesh_.nx();
    int ny        = self.mesh_.ny();
    self.flux_1g_ = 0.0;
    W worker(self.coarse_data_, &self.mesh_);
    ArrayB1 sum(self.n_reg_);
    sum = 0.0;
    sn::SnSweeperVariant<sn::SnSweeper_DD>::ThreadState state;
    for (int iang = 0; iang < self.ang_quad_.ndir() / 2; iang++) {
        Angle angle = self.ang_quad_[iang];
        state.macroplane = 0;
        state.iang       = iang;
        state.iang_2d    = iang % (self.ang_quad_.ndir() / 2);
        state.angle      = angle;
        state.ox         = angle.ox < 0.0 ? -angle.ox : angle.ox;
        state.oy         = angle.oy < 0.0 ? -angle.oy : angle.oy;
        state.oz         = angle.oz;
        state.tz         = angle.oz / self.mesh_.dz(0);
        real_t w  = angle.weight * PI;
        bool west = angle.ox < 0.0;
        bool south = angle.oy < 0.0;
        worker.set_octant(angle);
        auto &q   = self.source_->get_transport(iang);
        real_t *x = self.bc_out_.get_face(0, iang, Normal::X_NORM).second;
        real_t *y = self.bc_out_.get_face(0, iang, Normal::Y_NORM).second;
        self.bc_in_.copy_face(group, iang, Normal::X_NORM, x);
        self.bc_in_.copy_face(group, iang, Normal::Y_NORM, y);
        worker.upwind_work(x, y, angle, group);
        int xdir = west ? -1 : 1;
        int ydir = south ? -1 : 1;
        for (int iy = south ? ny - 1 : 0; iy != (south ? -1 : ny); iy += ydir) {
            state.ty = state.oy / self.mesh_.dy(iy);
            for (int ix = west ? nx - 1 : 0; ix != (west ? -1 : nx); ix += xdir) {
                real_t psi_x = x[iy];
                real_t psi_y = y[ix];
                int i        = self.mesh_.coarse_cell(Position(ix, iy, 0));
                real_t psi   = self.evaluate_2d(psi_x, psi_y, q[i], self.xstr_[i], i, state);
                x[iy] = psi_x;
                y[ix] = psi_y;
                sum(i) += psi * w;
                worker.current_work(psi_x, psi_y, i, angle, group);
            }
        }
        if (self.gs_boundary_) {
            self.bc_in_.update(group, iang, self.bc_out_);
        }
    }
    if (!self.gs_boundary_) {
        self.bc_in_.update(group, self.bc_out_);
    }
    self.flux_1g_ += sum;
}

void sn__sweep_3d(sn::SnSweeperVariant<sn::SnSweeper_DD> &self, int group)
{
    fn__sn_3d<sn::Current>(self, group);
}

void sn__sweep_3d_none(sn::SnSweeperVariant<sn::SnSweeper_DD> &self, int group)
{
    fn__sn_3d<sn::NoCurrent>(self, group);
}

void sn__sweep_2d(sn::SnSweeperVariant<sn::SnSweeper_DD> &self, int group)
{
    fn__sn_2d<sn::Current>(self, group);
}

void sn__sweep_2d_none(sn::SnSweeperVariant<sn::SnSweeper_DD> &self, int group)
{
    fn__sn_2d<sn::NoCurrent>(self, group);
}

template <typename W> void fn__moc(moc::MoCSweeper &self, int group, W &worker)
{
    self.flux_1g_ = 0.0;
    worker.set_group(group);
    ArrayB1 e_tau(self.rays_.max_segments());
    typename W::FluxStore fw(self.rays_.max_segments() + 1);
    typename W::FluxStore bw(self.rays_.max_segments() + 1);
    ArrayB1 sum(self.n_reg_);
    sum      = 0.0;
    int plane = 0;
    for (const auto unique : self.macroplane_unique_ids_) {
        int first = self.first_reg_macroplane_[plane];
        auto &in  = self.boundary_[plane];
        auto &out = self.boundary_out_[plane];
        worker.set_plane(plane);
        int iang = 0;
        for (const auto &rays : self.rays_[unique]) {
            auto &q   = self.source_->get_transport(iang);
            int back  = self.ang_quad_.reverse(iang);
            Angle ang = self.ang_quad_[iang];
            const real_t *in_fw = in.get_boundary(group, iang).second;
            real_t *out_fw      = out.get_boundary(0, iang).second;
            const real_t *in_bw = in.get_boundary(group, back).second;
            real_t *out_bw      = out.get_boundary(0, back).second;
            worker.set_angle(ang, self.rays_.spacing(iang));
            real_t w = PI * ang.weight * self.rays_.spacing(iang) * self.mesh_.macroplanes()[plane].height *
                       std::sin(ang.theta);
            for (int iray = 0; iray < (int)rays.size(); iray++) {
                const auto &ray = rays[iray];
                for (int s = 0; s < ray.nseg(); s++) {
                    int reg  = ray.seg_index(s) + first;
                    e_tau(s) = 1.0 - self.exp_.exp(-self.xstr_[reg] * ray.seg_len(s) * ang.rsintheta);
                }
                fw[0] = in_fw[ray.bc(0)];
                for (int s = 0; s < ray.nseg(); s++) {
                    int reg     = ray.seg_index(s) + first;
                    real_t drop = (fw[s] - q[reg]) * e_tau(s);
                    fw[s + 1]   = fw[s] - drop;
                    sum(reg) += drop * w;
                }
                out_fw[ray.bc(1)] = fw[ray.nseg()];
                bw[ray.nseg()]    = in_bw[ray.bc(1)];
                for (int s = ray.nseg() - 1; s >= 0; s--) {
                    int reg     = ray.seg_index(s) + first;
                    real_t drop = (bw[s + 1] - q[reg]) * e_tau(s);
                    bw[s]       = bw[s + 1] - drop;
                    sum(reg) += drop * w;
                }
                out_bw[ray.bc(0)] = bw[0];
                worker.post_ray(fw, bw, e_tau, ray, first);
            }
            worker.post_angle(iang);
            if (self.gauss_seidel_boundary_) {
                in.update(group, iang, out);
                in.update(group, back, out);
            }
            iang++;
        }
        if (!self.gauss_seidel_boundary_) {
            in.update(group, out);
        }
        plane++;
    }
    for (int i = 0; i < (int)self.n_reg_; i++) {
        self.flux_1g_(i) += sum(i);
    }
    auto &q = self.source_->get_transport(0);
    for (int i = 0; i < (int)self.n_reg_; i++) {
        self.flux_1g_(i) = self.flux_1g_(i) / (self.xstr_[i] * self.vol_[i]) + 4.0 * PI * q[i];
    }
    worker.post_sweep();
}

void moc__sweep1g(moc::MoCSweeper &self, int group, moc::Current &worker)
{
    fn__moc<moc::Current>(self, group, worker);
}

void moc__sweep1g_none(moc::MoCSweeper &self, int group, moc::NoCurrent &worker)
{
    fn__moc<moc::NoCurrent>(self, group, worker);
}

void moc__sweep1g_cc(moc::MoCSweeper &self, int group, CurrentCorrections &worker)
{
    fn__moc<CurrentCorrections>(self, group, worker);
}
}
