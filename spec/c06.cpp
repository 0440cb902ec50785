#include "solvers/eigen_solver.hpp"
#include "solvers/fixed_source_solver.hpp"
#include "core/transport_sweeper.hpp"
#include "util/utils.hpp"
#include "util/timers.hpp"
#include "common.hpp"

namespace ref {
// One power iteration: sweep with the fission source of the current flux and k,
// then scale k by the ratio of new to old total fission.
void EigenSolver__step(EigenSolver &self)
{
    if (self.cmfd_ && self.cmfd_->is_enabled()) {
        self.do_cmfd();
    }
    self.fss_.sweeper()->calc_fission_source(self.keff_, self.fission_source_);
    self.fission_source_prev_ = self.fission_source_;
    self.fss_.step();
    real_t now  = self.fss_.sweeper()->total_fission(false);
    real_t then = self.fss_.sweeper()->total_fission(true);
    self.keff_prev_ = self.keff_;
    self.keff_      = self.keff_ * now / then;
    self.fss_.sweeper()->calc_fission_source(self.keff_, self.fission_source_);
}

// Accelerate: coarse flux from the sweeper, coarse solve updates k, coarse flux
// back to the sweeper.
void EigenSolver__do_cmfd(EigenSolver &self)
{
    self.cmfd_->coarse_data().flux = self.fss_.sweeper()->get_pin_flux(MeshTreatment::PIN_PLANE);
    self.cmfd_->solve(self.keff_);
    self.fss_.sweeper()->set_pin_flux(self.cmfd_->flux(), MeshTreatment::PIN_PLANE);
}

real_t TransportSweeper__total_fission(const TransportSweeper &self, bool old)
{
    real_t sum = 0.0;
    for (auto &xsr : *self.xs_mesh_) {
        for (int ig = 0; ig < self.n_group_; ig++) {
            for (auto &ireg : xsr.reg()) {
                sum += xsr.xsmacnf(ig) * self.vol_[ireg] *
                       (old ? self.flux_old_(ireg, ig) : self.flux_(ireg, ig));
            }
        }
    }
    return sum;
}

void TransportSweeper__calc_fission_source(const TransportSweeper &self, real_t k, ArrayB1 &fission_source)
{
    fission_source = 0.0;
    for (auto &xsr : *self.xs_mesh_) {
        for (int ig = 0; ig < self.n_group_; ig++) {
            for (auto &ireg : xsr.reg()) {
                fission_source(ireg) += xsr.xsmacnf(ig) * self.flux_(ireg, ig) / k;
            }
        }
    }
}

void TransportSweeper__store_old_flux(TransportSweeper &self)
{
    self.flux_old_ = self.flux_;
}

void EigenSolver__solve(EigenSolver &self)
{
    self.keff_      = 1.0;
    self.keff_prev_ = 1.0;
    self.fss_.initialize();
    self.fss_.set_fission_source(&self.fission_source_);
    self.error_k_   = self.tolerance_k_;
    self.error_psi_ = self.tolerance_psi_;
    self.fss_.sweeper()->calc_fission_source(self.keff_, self.fission_source_);
    for (size_t n = 0; n < self.max_iterations_; n++) {
        self.step();
        self.error_k_ = fabs(self.keff_ - self.keff_prev_);
        Normalize(self.fission_source_.begin(), self.fission_source_.end());
        Normalize(self.fission_source_prev_.begin(), self.fission_source_prev_.end());
        real_t sum = 0.0;
        for (int i = 0; i < (int)self.fission_source_.size(); i++) {
            real_t e = self.fission_source_(i) - self.fission_source_prev_(i);
            sum += e * e;
        }
        self.error_psi_ = std::sqrt(sum / self.n_fissile_regions_);
        self.convergence_.push_back(ConvergenceCriteria(self.keff_, self.error_k_, self.error_psi_));
        self.iteration_times_.push_back(RootTimer.time());
        if (self.keff_ != self.keff_) {
            throw EXCEPT("nan");
        }
        if (self.error_k_ < self.tolerance_k_ && self.error_psi_ < self.tolerance_psi_ && n >= self.min_iterations_) {
            break;
        }
    }
}
}
