#include "core/cmfd.hpp"
#include "common.hpp"

namespace ref {
// Half-cell diffusivity on one side of a surface; a missing cell is replaced by
// the boundary condition of that side.
real_t side(const CMFD &self, const VecF &d, int cell, Normal norm, int which)
{
    if (cell > -1) {
        return d[cell] / self.mesh_.cell_thickness(cell, norm);
    }
    switch (self.mesh_.boundary_array()[(int)norm][which]) {
    case Boundary::REFLECT:
        return 0.0;
    case Boundary::VACUUM:
        return 0.25;
    default:
        throw EXCEPT("unsupported boundary");
    }
}

// +1 for a surface whose outward normal is along the axis, -1 otherwise
real_t outward(Surface s)
{
    return (s == Surface::WEST || s == Surface::SOUTH || s == Surface::BOTTOM) ? -1.0 : 1.0;
}

void CMFD__setup_solve(CMFD &self)
{
    for (int g = 0; g < (int)self.m_.size(); g++) {
        VecF d(self.n_cell_);
        VecF rm(self.n_cell_);
        for (const auto &xsr : self.xsmesh_) {
            for (const int i : xsr.reg()) {
                d[i]  = 1.0 / (3.0 * xsr.xsmactr(g));
                rm[i] = xsr.xsmacrm(g);
            }
        }
        // transport currents on the coarse mesh: area average over the planes
        // of a macroplane, and the bottom/top surfaces of each macroplane
        int nz = self.fine_mesh_->nz();
        if (self.fine_mesh_->n_macroplanes() != nz) {
            self.current_1g_ = 0.0;
            for (int iz = 0; iz < nz; iz++) {
                int m = self.fine_mesh_->macroplane_index(iz);
                int n = self.fine_mesh_->plane_surf_end(iz) - self.fine_mesh_->plane_surf_xy_begin(iz);
                self.current_1g_(blitz::Range(self.mesh_.plane_surf_xy_begin(m), self.mesh_.plane_surf_end(m) - 1)) +=
                    self.fine_mesh_->dz(iz) *
                    self.coarse_data_.current(blitz::Range(self.fine_mesh_->plane_surf_xy_begin(iz),
                                                           self.fine_mesh_->plane_surf_end(iz) - 1), g);
            }
            for (int m = 0; m < (int)self.mesh_.nz(); m++) {
                self.current_1g_(blitz::Range(self.mesh_.plane_surf_xy_begin(m), self.mesh_.plane_surf_end(m) - 1)) /=
                    self.mesh_.dz(m);
            }
            int last = -1;
            for (int iz = 0; iz < nz; iz++) {
                int m = self.fine_mesh_->macroplane_index(iz);
                if (last != m) {
                    self.current_1g_(blitz::Range(self.mesh_.plane_surf_begin(m), self.mesh_.plane_surf_xy_begin(m) - 1)) =
                        self.coarse_data_.current(blitz::Range(self.fine_mesh_->plane_surf_begin(iz),
                                                               self.fine_mesh_->plane_surf_xy_begin(iz) - 1), g);
                    last = m;
                }
            }
            int nm = self.fine_mesh_->n_macroplanes();
            self.current_1g_(blitz::Range(self.mesh_.plane_surf_begin(nm), self.mesh_.plane_surf_xy_begin(nm) - 1)) =
                self.coarse_data_.current(blitz::Range(self.fine_mesh_->plane_surf_begin(nz),
                                                       self.fine_mesh_->plane_surf_xy_begin(nz) - 1), g);
        } else {
            self.current_1g_ = self.coarse_data_.current(blitz::Range::all(), g);
        }
        for (int is = 0; is < self.n_surf_; is++) {
            auto c     = self.mesh_.coarse_neigh_cells(is);
            Normal nrm = self.mesh_.surface_normal(is);
            real_t d1  = side(self, d, c.first, nrm, 0);
            real_t d2  = side(self, d, c.second, nrm, 1);
            self.d_tilde_(is, g) = 2.0 * d1 * d2 / (d1 + d2);
            self.s_tilde_(is, g) = d1 > 0.0 ? d1 / (d1 + d2) : d2 / (d1 + d2);
            self.d_hat_(is, g)   = 0.0;
            self.s_hat_(is, g)   = 0.0;
            bool have = nrm == Normal::Z_NORM ? self.coarse_data_.has_axial_data() : self.coarse_data_.has_radial_data();
            if (have) {
                real_t l = c.first >= 0 ? self.coarse_data_.flux(c.first, g) : 0.0;
                real_t r = c.second >= 0 ? self.coarse_data_.flux(c.second, g) : 0.0;
                // D-hat: what makes -D~ (r - l) + D^ (r + l) the transport current
                real_t dh = (self.current_1g_(is) + self.d_tilde_(is, g) * (r - l)) / (l + r);
                if (std::isfinite(dh)) {
                    self.d_hat_(is, g) = dh;
                }
                real_t phi = self.coarse_data_.surface_flux(is, g);
                real_t st  = self.s_tilde_(is, g);
                if (c.first >= 0) {
                    self.s_hat_(is, g) = (phi - st * l - (1.0 - st) * r) / (l + r);
                } else {
                    self.s_hat_(is, g) = (phi - st * r) / r;
                }
            }
        }
        // balance of each cell: removal plus leakage through its six surfaces
        for (int k = 0; k < self.m_[g].outerSize(); k++) {
            for (Eigen::SparseMatrix<real_t>::InnerIterator it(self.m_[g], k); it; ++it) {
                if (it.row() == it.col()) {
                    real_t v = self.mesh_.coarse_volume(it.row()) * rm[it.row()];
                    for (auto s : AllSurfaces) {
                        int surf = self.mesh_.coarse_surf(it.row(), s);
                        v += self.mesh_.coarse_area(it.row(), s) *
                             (self.d_tilde_(surf, g) + outward(s) * self.d_hat_(surf, g));
                    }
                    it.valueRef() = v;
                } else {
                    auto p = self.mesh_.coarse_interface(it.row(), it.col());
                    it.valueRef() = self.mesh_.coarse_area(it.row(), p.second) *
                                    (outward(p.second) * self.d_hat_((int)p.first, g) - self.d_tilde_((int)p.first, g));
                }
            }
        }
        self.solvers_[g].compute(self.m_[g]);
        self.solvers_[g].setMaxIterations(150);
    }
}

void CMFD__fission_source(CMFD &self, real_t k)
{
    self.fs_ = 0.0;
    for (const auto &xsr : self.xsmesh_) {
        for (const int i : xsr.reg()) {
            for (int g = 0; g < self.n_group_; g++) {
                self.fs_(i) += xsr.xsmacnf(g) * self.coarse_data_.flux(i, g);
            }
        }
    }
    self.fs_ *= 1.0 / k;
}

real_t CMFD__total_fission(CMFD &self)
{
    real_t f = 0.0;
    for (const auto &xsr : self.xsmesh_) {
        for (const int i : xsr.reg()) {
            for (int g = 0; g < self.n_group_; g++) {
                f += xsr.xsmacnf(g) * self.coarse_data_.flux(i, g) * self.mesh_.coarse_volume(i);
            }
        }
    }
    return f;
}

real_t CMFD__solve_1g(CMFD &self, int group)
{
    for (int i = 0; i < self.n_cell_; i++) {
        self.x_[i] = self.coarse_data_.flux(i, group);
    }
    real_t r = self.residual(group);
    self.x_  = self.solvers_[group].solveWithGuess(self.source_.get(), self.x_);
    for (int i = 0; i < self.n_cell_; i++) {
        self.coarse_data_.flux(i, group) = self.x_[i];
    }
    return r;
}

// Squared norm of (matrix x flux - source), with the source of that group.
real_t CMFD__residual(CMFD &self)
{
    real_t sum = 0.0;
    for (int g = 0; g < self.n_group_; g++) {
        self.source_.initialize_group(g);
        self.source_.fission(self.fs_, g);
        self.source_.in_scatter(g);
        self.source_.scale(self.mesh_.coarse_volume());
        for (int i = 0; i < self.n_cell_; i++) {
            self.x_[i] = self.coarse_data_.flux(i, g);
        }
        sum += self.residual(g);
    }
    return std::sqrt(sum) / (self.n_group_ * self.n_cell_);
}

real_t CMFD__residual_1g(const CMFD &self, int group)
{
    VectorX r = self.m_[group] * self.x_ - self.source_.get();
    return r.squaredNorm();
}

void CMFD__store_currents(CMFD &self)
{
    self.coarse_data_.source() = "CMFD";
    for (int g = 0; g < (int)self.xsmesh_.n_group(); g++) {
        self.coarse_data_.partial_current_old(blitz::Range::all(), g) =
            self.coarse_data_.partial_current(blitz::Range::all(), g);
        self.coarse_data_.set_has_old_partial(self.n_solve_ > 0);
        for (int is = 0; is < self.n_surf_; is++) {
            auto c   = self.mesh_.coarse_neigh_cells(is);
            real_t l = c.first >= 0 ? self.coarse_data_.flux(c.first, g) : 0.0;
            real_t r = c.second >= 0 ? self.coarse_data_.flux(c.second, g) : 0.0;
            real_t j = self.d_hat_(is, g) * (l + r) - self.d_tilde_(is, g) * (r - l);
            real_t st  = self.s_tilde_(is, g);
            real_t phi = c.first >= 0 ? st * l + (1.0 - st) * r : st * r;
            phi += self.s_hat_(is, g) * (l + r);
            self.current_1g_(is)                   = j;
            self.coarse_data_.surface_flux(is, g) = phi;
            self.coarse_data_.partial_current(is, g) = {{0.25 * phi + 0.5 * j, 0.25 * phi - 0.5 * j}};
        }
        int nz = self.fine_mesh_->nz();
        self.coarse_data_.current(blitz::Range::all(), g) = 0.0;
        if (self.fine_mesh_->n_macroplanes() == nz) {
            self.coarse_data_.current(blitz::Range::all(), g) = self.current_1g_;
        } else {
            for (int iz = 0; iz < nz; iz++) {
                int m = self.fine_mesh_->macroplane_index(iz);
                self.coarse_data_.current(blitz::Range(self.fine_mesh_->plane_surf_xy_begin(iz),
                                                       self.fine_mesh_->plane_surf_end(iz) - 1), g) =
                    self.current_1g_(blitz::Range(self.mesh_.plane_surf_xy_begin(m), self.mesh_.plane_surf_end(m) - 1));
            }
            int last = -1;
            for (int iz = 0; iz < nz; iz++) {
                int m = self.fine_mesh_->macroplane_index(iz);
                if (last != m) {
                    self.coarse_data_.current(blitz::Range(self.fine_mesh_->plane_surf_begin(iz),
                                                           self.fine_mesh_->plane_surf_xy_begin(iz) - 1), g) =
                        self.current_1g_(blitz::Range(self.mesh_.plane_surf_begin(m), self.mesh_.plane_surf_xy_begin(m) - 1));
                    last = m;
                }
            }
            int nm = self.fine_mesh_->n_macroplanes();
            self.coarse_data_.current(blitz::Range(self.fine_mesh_->plane_surf_begin(nz),
                                                   self.fine_mesh_->plane_surf_xy_begin(nz) - 1), g) =
                self.current_1g_(blitz::Range(self.mesh_.plane_surf_begin(nm), self.mesh_.plane_surf_xy_begin(nm) - 1));
        }
    }
}

void CMFD__solve(CMFD &self, real_t &k)
{
    if (self.zero_fixup_) {
        for (int g = 0; g < (int)self.m_.size(); g++) {
            for (int i = 0; i < (int)self.coarse_data_.flux.extent(0); i++) {
                self.coarse_data_.flux(i, g) = std::max(self.coarse_data_.flux(i, g), 0.0);
            }
        }
    }
    self.xsmesh_.update();
    self.setup_solve();
    self.fission_source(k);
    real_t tfis = self.total_fission();
    real_t r0   = self.residual();
    for (auto &s : self.solvers_) {
        s.setTolerance(self.resid_reduction_ * r0);
    }
    int iter = 0;
    while (true) {
        iter++;
        self.fs_old_ = self.fs_;
        self.fission_source(k);
        real_t before = tfis;
        real_t ri     = 0.0;
        for (int g = 0; g < self.n_group_; g++) {
            self.source_.initialize_group(g);
            self.source_.fission(self.fs_, g);
            self.source_.in_scatter(g);
            self.source_.scale(self.mesh_.coarse_volume());
            ri += self.solve_1g(g);
        }
        ri = std::sqrt(ri) / (self.n_cell_ * self.n_group_);
        tfis         = self.total_fission();
        real_t k_old = k;
        k            = k * tfis / before;
        real_t err = 0.0;
        for (int i = 0; i < (int)self.fs_.size(); i++) {
            err += (self.fs_(i) - self.fs_old_(i)) * (self.fs_(i) - self.fs_old_(i));
        }
        err = std::sqrt(err);
        if (iter > self.max_iter_) {
            break;
        }
        if (std::abs(k - k_old) < self.k_tol_ && err < self.psi_tol_ && ri / r0 < self.resid_reduction_) {
            break;
        }
    }
    for (auto &v : self.coarse_data_.flux) {
        if (v < 0.0) {
            v = -v;
        }
    }
    self.store_currents();
    self.n_solve_++;
}

void CoarseData__ctor(CoarseData &self, const Mesh &mesh, size_t ngroup)
{
    int ns = mesh.n_surf();
    int nr = mesh.n_reg(MeshTreatment::PIN_PLANE);
    self.current.resize(ns, ngroup);
    self.surface_flux.resize(ns, ngroup);
    self.partial_current.resize(ns, ngroup);
    self.partial_current_old.resize(ns, ngroup);
    self.flux.resize(nr, ngroup);
    self.old_flux.resize(nr, ngroup);
    self.n_group_ = ngroup;
    self.has_data_radial_ = false;
    self.has_data_axial_  = false;
    self.has_old_partial_ = false;
    self.source_ = "No Data";
    self.current = 0.0;
    self.surface_flux = 0.0;
    self.flux = 1.0;
    self.old_flux = 1.0;
    std::array<real_t, 2> zero = {{0.0, 0.0}};
    self.partial_current = zero;
    self.partial_current_old = zero;
}

void CoarseData__zero_data(CoarseData &self, int group, bool zero_partial)
{
    self.current(blitz::Range::all(), group)      = 0.0;
    self.surface_flux(blitz::Range::all(), group) = 0.0;
    if (zero_partial) {
        const std::array<real_t, 2> zero = {{0.0, 0.0}};
        self.partial_current(blitz::Range::all(), group) = zero;
    }
}

void CoarseData__zero_data_radial(CoarseData &self, int group, bool zero_partial)
{
    const std::array<real_t, 2> zero = {{0.0, 0.0}};
    for (int p = 0; p < (int)self.mesh_.nz(); p++) {
        for (int s = self.mesh_.plane_surf_xy_begin(p); s != self.mesh_.plane_surf_end(p); s++) {
            self.current(s, group)      = 0.0;
            self.surface_flux(s, group) = 0.0;
            if (zero_partial) {
                self.partial_current(s, group) = zero;
            }
        }
    }
}
}
