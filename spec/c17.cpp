#include "core/cmfd.hpp"
#include "core/transport_sweeper.hpp"
#include "sweepers/cmdo/plane_sweeper_2d3d.hpp"
#include "sweepers/sn/sn_sweeper.hpp"
#include "util/utils.hpp"
#include "common.hpp"
using namespace mocc::cmdo;
using namespace mocc::sn;

namespace ref {
real_t TransportSweeper__total_fission(const TransportSweeper &self, bool old)
{
    real_t sum = 0.0;
    for (auto &xsr : *self.xs_mesh_) {
        for (int ig = 0; ig < self.n_group_; ig++) {
            for (auto &ireg : xsr.reg()) {
                sum += xsr.xsmacnf(ig) * self.vol_[ireg] *
                       (old ? self.flux_old_(ireg, ig) : self.flux_(ireg, ig));
            }
        }
    }
    return sum;
}

void TransportSweeper__calc_fission_source(const TransportSweeper &self, real_t k, ArrayB1 &fission_source)
{
    fission_source = 0.0;
    for (auto &xsr : *self.xs_mesh_) {
        for (int ig = 0; ig < self.n_group_; ig++) {
            for (auto &ireg : xsr.reg()) {
                fission_source(ireg) += xsr.xsmacnf(ig) * self.flux_(ireg, ig) / k;
            }
        }
    }
}

// Fission power of each pin, scaled to an average of one over the fuel pins of
// a plane.
ArrayB3 TransportSweeper__pin_powers(const TransportSweeper &self)
{
    ArrayB3 powers(self.core_mesh_->subplane().size(), self.core_mesh_->ny(), self.core_mesh_->nx());
    powers = 0.0;
    ArrayB1 region(self.n_reg_);
    region = 0.0;
    for (const auto &xsr : *self.xs_mesh_) {
        for (int ig = 0; ig < self.n_group_; ig++) {
            for (auto ireg : xsr.reg()) {
                region(ireg) += self.flux_(ireg, ig) * xsr.xsmacf(ig) * self.vol_[ireg];
            }
        }
    }
    int ireg     = 0;
    int iz       = 0;
    real_t total = 0.0;
    for (int plane = 0; plane < (int)self.core_mesh_->subplane().size(); ++plane) {
        int ipin = 0;
        for (auto it = self.core_mesh_->begin(iz); it != self.core_mesh_->end(iz); ++it) {
            Position pos = self.core_mesh_->pin_position(ipin);
            for (int ir = 0; ir < (*it)->mesh().n_reg(); ir++) {
                total += region(ireg);
                powers(plane, pos.y, pos.x) += region(ireg);
                ireg++;
            }
            ipin++;
        }
        iz += self.core_mesh_->subplane()[plane];
    }
    total = self.core_mesh_->n_fuel_2d() / total;
    for (auto &v : powers) {
        v *= total;
    }
    return powers;
}

real_t TransportSweeper__flux_residual(const TransportSweeper &self)
{
    real_t r    = 0.0;
    auto it     = self.flux_.begin();
    auto it_old = self.flux_old_.begin();
    while (it != self.flux_.end()) {
        r += (*it - *it_old) * (*it - *it_old);
        ++it;
        ++it_old;
    }
    return std::sqrt(r);
}

ArrayB3 SnSweeper__pin_powers(const SnSweeper &self)
{
    ArrayB3 powers(self.mesh_.nz(), self.mesh_.ny(), self.mesh_.nx());
    powers = 0.0;
    for (const auto &xsr : *self.xs_mesh_) {
        for (const auto ireg : xsr.reg()) {
            Position pos = self.mesh_.coarse_position(ireg);
            for (int ig = 0; ig < self.n_group_; ig++) {
                powers(pos.z, pos.y, pos.x) += self.vol_[ireg] * self.flux_(ireg, ig) * xsr.xsmacf(ig);
            }
        }
    }
    Normalize(powers.begin(), powers.end());
    return powers;
}

ArrayB2 SnSweeper__pin_powers_2d(const SnSweeper &self)
{
    ArrayB2 powers(self.mesh_.ny(), self.mesh_.nx());
    powers = 0.0;
    for (const auto &xsr : *self.xs_mesh_) {
        for (const auto ireg : xsr.reg()) {
            Position pos = self.mesh_.coarse_position(ireg);
            for (int ig = 0; ig < self.n_group_; ig++) {
                powers(pos.y, pos.x) += self.vol_[ireg] * self.flux_(ireg, ig) * xsr.xsmacf(ig);
            }
        }
    }
    Normalize(powers.begin(), powers.end());
    return powers;
}

void CMFD__fission_source(CMFD &self, real_t k)
{
    self.fs_ = 0.0;
    for (const auto &xsr : self.xsmesh_) {
        for (const int i : xsr.reg()) {
            for (int g = 0; g < self.n_group_; g++) {
                self.fs_(i) += xsr.xsmacnf(g) * self.coarse_data_.flux(i, g);
            }
        }
    }
    self.fs_ *= 1.0 / k;
}

real_t CMFD__total_fission(CMFD &self)
{
    real_t f = 0.0;
    for (const auto &xsr : self.xsmesh_) {
        for (const int i : xsr.reg()) {
            for (int g = 0; g < self.n_group_; g++) {
                f += xsr.xsmacnf(g) * self.coarse_data_.flux(i, g) * self.mesh_.coarse_volume(i);
            }
        }
    }
    return f;
}

int PlaneSweeper_2D3D__n_reg_fission(const PlaneSweeper_2D3D &self)
{
    return self.sn_sweeper_->n_reg() + self.moc_sweeper_.n_reg();
}

int TransportSweeper__n_reg_fission(const TransportSweeper &self)
{
    return self.n_reg_;
}

// The Sn regions come first, then those of the method of characteristics.
void PlaneSweeper_2D3D__calc_fission_source(const PlaneSweeper_2D3D &self, real_t k, ArrayB1 &fission_source)
{
    ArrayB1 sn(fission_source(blitz::Range(0, self.sn_sweeper_->n_reg() - 1)));
    ArrayB1 moc(fission_source(blitz::Range(self.sn_sweeper_->n_reg(), blitz::toEnd)));
    self.sn_sweeper_->calc_fission_source(k, sn);
    self.moc_sweeper_.calc_fission_source(k, moc);
}

real_t PlaneSweeper_2D3D__total_fission(const PlaneSweeper_2D3D &self, bool old)
{
    return self.expose_sn_ ? self.sn_sweeper_->total_fission(old) : self.moc_sweeper_.total_fission(old);
}

// Scaled so that the values average to one over those that are positive.
real_t fn__Normalize(VecF::iterator first, VecF::iterator last)
{
    int n      = 0;
    real_t sum = 0.0;
    for (auto it = first; it != last; ++it) {
        n += *it > 0.0 ? 1 : 0;
        sum += *it;
    }
    for (auto it = first; it != last; ++it) {
        *it *= n / sum;
    }
    return n / sum;
}
}
