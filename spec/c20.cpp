#include "sweepers/mc/particle_pusher.hpp"
#include "sweepers/mc/particle.hpp"
#include "sweepers/mc/fission_bank.hpp"
#include "solvers/monte_carlo_eigenvalue_solver.hpp"
#include "util/rng_lcg.hpp"
#include "common.hpp"
#include <cmath>
#include <limits>
using namespace mocc::mc;

namespace mocc {
namespace mc {
extern RNG_LCG RNG;
#pragma omp threadprivate(RNG)
}
}

namespace ref {
void TallyScalar__score(TallyScalar &self, real_t value)
{
    self.sum_ += value;
    self.sum_square_ += value * value;
}

void TallyScalar__add_weight(TallyScalar &self, real_t w)
{
    self.weight_ += w;
}

void TallyScalar__reset(TallyScalar &self)
{
    self.sum_        = 0.0;
    self.sum_square_ = 0.0;
    self.weight_     = 0.0;
}

void TallyScalar__ctor(TallyScalar &self)
{
    self.sum_        = 0.0;
    self.sum_square_ = 0.0;
    self.weight_     = 0.0;
}

// The variance of the mean of n samples is that of the samples over n
std::pair<real_t, real_t> TallyScalar__get(const TallyScalar &self)
{
    std::pair<real_t, real_t> val;
    real_t n       = self.weight_;
    real_t mean    = self.sum_ / n;
    real_t samples = (self.sum_square_ / n - mean * mean) * n / (n - 1.0);
    val.first      = mean;
    val.second     = std::sqrt(samples / n) / mean;
    return val;
}

void TallySpatial__ctor(TallySpatial &self, const VecF &norm)
{
    self.nreg_   = norm.size();
    self.weight_ = 0.0;
    self.n_      = 0;
    self.data_.resize(norm.size(), {0.0, 0.0});
    self.realization_scores_.resize(norm.size(), 0.0);
}

void TallySpatial__score(TallySpatial &self, int i, real_t value)
{
    self.realization_scores_[i] += value;
}

void TallySpatial__add_weight(TallySpatial &self, real_t w)
{
    self.weight_ += w;
}

void TallySpatial__commit_realization(TallySpatial &self)
{
    for (unsigned i = 0; i < self.realization_scores_.size(); i++) {
        real_t v = self.realization_scores_[i] / self.weight_;
        self.data_[i].first += v;
        self.data_[i].second += v * v;
        self.realization_scores_[i] = 0.0;
    }
    self.n_++;
    self.weight_ = 0.0;
}

void TallySpatial__reset(TallySpatial &self)
{
    for (auto &d : self.data_) {
        d = {0.0, 0.0};
    }
    for (auto &d : self.realization_scores_) {
        d = 0.0;
    }
    self.weight_ = 0.0;
    self.n_      = 0;
}

std::vector<std::pair<real_t, real_t>> TallySpatial__get(const TallySpatial &self)
{
    std::vector<std::pair<real_t, real_t>> ret;
    for (unsigned i = 0; i < self.data_.size(); i++) {
        real_t mean     = self.data_[i].first / self.n_;
        real_t variance = (self.data_[i].second - self.n_ * mean * mean) / (self.n_ - 1.0);
        ret.push_back({mean / self.norm_[i], std::sqrt(variance) / mean});
    }
    return ret;
}

void ParticlePusher__reset_tallies(ParticlePusher &self, bool clear_persistent)
{
    self.k_tally_tl_.reset();
    self.k_tally_col_.reset();
    self.k_tally_analog_.reset();
    if (clear_persistent) {
        for (auto &t : self.scalar_flux_tally_) {
            t.reset();
        }
        for (auto &t : self.fine_flux_tally_) {
            t.reset();
        }
        for (auto &t : self.fine_flux_col_tally_) {
            t.reset();
        }
        self.pin_power_tally_.reset();
    }
}

void ParticlePusher__commit_tallies(ParticlePusher &self)
{
    for (auto &t : self.scalar_flux_tally_) {
        t.commit_realization();
    }
    for (auto &t : self.fine_flux_tally_) {
        t.commit_realization();
    }
    for (auto &t : self.fine_flux_col_tally_) {
        t.commit_realization();
    }
    self.pin_power_tally_.commit_realization();
}

void ParticlePusher__simulate_bank(ParticlePusher &self, const FissionBank &bank, real_t k_eff)
{
    self.fission_bank_.clear();
    self.k_eff_           = k_eff;
    self.print_particles_ = false;
    for (unsigned ip = 0; ip < bank.size(); ip++) {
        self.simulate(bank[ip]);
    }
    self.k_tally_analog_.score((double)self.fission_bank_.size() / bank.size());
    self.k_tally_analog_.add_weight(1.0);
    self.commit_tallies();
    self.n_cycles_++;
    self.id_offset_ += bank.size();
}

void MonteCarloEigenvalueSolver__solve(MonteCarloEigenvalueSolver &self)
{
    self.cycle_        = -self.n_inactive_cycles_;
    self.active_cycle_ = false;
    for (int i = 0; i < self.n_inactive_cycles_; i++) {
        self.step();
    }
    self.pusher_.reset_tallies(true);
    self.active_cycle_ = true;
    for (int i = 0; i < self.n_cycles_ - self.n_inactive_cycles_; i++) {
        self.step();
    }
}

void MonteCarloEigenvalueSolver__step(MonteCarloEigenvalueSolver &self)
{
    self.cycle_++;
    self.pusher_.simulate(self.source_bank_, 1.0);
    self.k_eff_   = self.pusher_.k_tally_tl().get();
    auto k_tl     = self.pusher_.k_tally_tl().get();
    auto k_col    = self.pusher_.k_tally_col().get();
    auto k_analog = self.pusher_.k_tally_analog().get();
    self.k_history_tl_.push_back(k_tl.first);
    self.k_history_col_.push_back(k_col.first);
    self.k_history_analog_.push_back(k_analog.first);
    self.h_history_.push_back(self.source_bank_.shannon_entropy());
    if (self.active_cycle_) {
        self.k_tally_tl_.score(k_tl.first);
        self.k_tally_tl_.add_weight(1.0);
        self.k_tally_col_.score(k_col.first);
        self.k_tally_col_.add_weight(1.0);
        self.k_tally_analog_.score(k_analog.first);
        self.k_tally_analog_.add_weight(1.0);
        self.k_mean_history_tl_.push_back(self.k_tally_tl_.get().first);
        self.k_stdev_history_tl_.push_back(self.k_tally_tl_.get().second);
        self.k_mean_history_col_.push_back(self.k_tally_col_.get().first);
        self.k_stdev_history_col_.push_back(self.k_tally_col_.get().second);
        self.k_mean_history_analog_.push_back(self.k_tally_analog_.get().first);
        self.k_stdev_history_analog_.push_back(self.k_tally_analog_.get().second);
    }
    self.source_bank_.swap(self.pusher_.fission_bank());
    std::stable_sort(self.source_bank_.begin(), self.source_bank_.end());
    self.source_bank_.resize(self.particles_per_cycle_, self.rng_);
    unsigned i = 0;
    for (auto &p : self.source_bank_) {
        p.id = i++;
    }
    self.pusher_.reset_tallies();
}

void FissionBank__resize(FissionBank &self, unsigned int n, RNG_LCG &rng)
{
    if (n > self.sites_.size()) {
        int n_orig = self.sites_.size();
        while (self.sites_.size() < n) {
            int i_rand = rng.random_int(n_orig);
            self.sites_.push_back(self.sites_[i_rand]);
        }
    }
    if (n < self.sites_.size()) {
        int n_remove = self.sites_.size() - n;
        for (int i = 0; i < n_remove; i++) {
            int i_rand          = rng.random_int(self.sites_.size());
            self.sites_[i_rand] = self.sites_.back();
            self.sites_.pop_back();
        }
    }
}

void FissionBank__swap(FissionBank &self, FissionBank &other)
{
    self.sites_.swap(other.sites_);
    real_t total         = self.total_fission_;
    self.total_fission_  = other.total_fission_;
    other.total_fission_ = total;
}

real_t FissionBank__shannon_entropy(const FissionBank &self)
{
    real_t h = 0.0;
    VecF populations(self.mesh_.n_pin(), 0.0);
    for (const auto &p : self.sites_) {
        int icell = self.mesh_.coarse_cell_point(p.location_global);
        if (icell < 0 || icell >= (int)self.mesh_.n_pin()) {
            throw EXCEPT("Couldnt locate particle");
        }
        populations[icell] += p.weight;
    }
    for (const auto &p : populations) {
        real_t pj = p / self.sites_.size();
        if (pj > 0.0) {
            h -= pj * std::log2(pj);
        }
    }
    return h;
}
} // namespace ref
