#include "solvers/fixed_source_solver.hpp"
#include "sweepers/cmdo/plane_sweeper_2d3d.hpp"
#include "sweepers/moc/moc_sweeper.hpp"
#include "sweepers/moc/moc_current_worker.hpp"
#include "sweepers/cmdo/correction_worker.hpp"
#include "sweepers/sn/sn_sweeper_dd.hpp"
#include "common.hpp"

namespace ref {
// One pass: keep the old flux, then for each group its source and its sweep.
void FixedSourceSolver__step(FixedSourceSolver &self)
{
    self.sweeper_->store_old_flux();
    for (size_t g = 0; g < self.ng_; g++) {
        self.source_->initialize_group(g);
        if (self.fs_) {
            self.source_->fission(*self.fs_, g);
        }
        self.source_->in_scatter(g);
        self.sweeper_->sweep(g);
    }
}

// Passes until the flux settles, at most the given number.
void FixedSourceSolver__solve(FixedSourceSolver &self)
{
    self.initialize();
    for (size_t i = 0; i < self.max_iter_; i++) {
        self.step();
        if (self.sweeper_->flux_residual() < self.flux_tol_) {
            break;
        }
    }
}

void FixedSourceSolver__initialize(FixedSourceSolver &self)
{
    self.sweeper_->initialize();
}

// Cross sections of the group, then inner iterations on that group's flux,
// each with its own self-scattering source; the last one tallies currents.
void MoCSweeper__sweep(moc::MoCSweeper &self, int group)
{
    self.xstr_.expand(group, self.split_);
    self.flux_1g_.reference(self.flux_(blitz::Range::all(), group));
    for (unsigned int i = 0; i < self.n_inner_; i++) {
        self.source_->self_scatter(group, self.xstr_.xs());
        if (i == self.n_inner_ - 1 && self.coarse_data_) {
            self.coarse_data_->zero_data_radial(group);
            moc::Current cw(self.coarse_data_, &self.mesh_);
            self.sweep1g(group, cw);
            self.coarse_data_->set_has_radial_data(true);
        } else {
            moc::NoCurrent cw(self.coarse_data_, &self.mesh_);
            self.sweep1g(group, cw);
        }
    }
}

void MoCSweeper_2D3D__sweep(cmdo::MoCSweeper_2D3D &self, int group)
{
    if (!self.coarse_data_) {
        throw EXCEPT("no coarse data");
    }
    self.n_sweep_++;
    self.xstr_.expand(group, self.split_);
    if (self.allow_splitting_) {
        self.xstr_true_.expand(group);
    }
    cmdo::CurrentCorrections ccw(self.coarse_data_, &self.mesh_, self.corrections_.get(),
                                 self.source_->get_transport(0), self.xstr_true_, self.xstr_, self.xstr_sn_,
                                 self.ang_quad_, self.rays_);
    moc::NoCurrent ncw(self.coarse_data_, &self.mesh_);
    self.flux_1g_.reference(self.flux_(blitz::Range::all(), group));
    for (unsigned int i = 0; i < self.n_inner_; i++) {
        self.n_sweep_inner_++;
        self.source_->self_scatter(group, self.xstr_.xs());
        if (i == self.n_inner_ - 1 && self.coarse_data_) {
            self.coarse_data_->zero_data_radial(group);
            self.sn_xs_mesh_->update();
            self.sweep1g(group, ccw);
            self.coarse_data_->set_has_radial_data(true);
            self.correction_residuals_[group].push_back(ccw.residual());
        } else {
            self.sweep1g(group, ncw);
        }
    }
}

void SnSweeperVariant__sweep(sn::SnSweeperVariant<sn::SnSweeper_DD> &self, int group)
{
    self.xs_mesh_->update();
    self.group_ = group;
    self.xstr_.expand(group);
    self.flux_1g_.reference(self.flux_(blitz::Range::all(), group));
    for (unsigned i = 0; i < self.n_inner_; i++) {
        bool tally = i == self.n_inner_ - 1 && self.coarse_data_;
        self.source_->self_scatter(group);
        if (tally) {
            self.coarse_data_->zero_data(group);
            self.coarse_data_->source() = "Sn Sweeper";
            if (self.core_mesh_->is_2d()) {
                self.template sweep_1g_2d<sn::Current>(group);
            } else {
                self.template sweep_1g<sn::Current>(group);
                self.coarse_data_->set_has_axial_data(true);
            }
            self.coarse_data_->set_has_radial_data(true);
        } else if (self.core_mesh_->is_2d()) {
            self.template sweep_1g_2d<sn::NoCurrent>(group);
        } else {
            self.template sweep_1g<sn::NoCurrent>(group);
        }
    }
    for (auto &v : self.flux_1g_) {
        if (v < 0) {
            v = 0.0;
        }
    }
}
}
