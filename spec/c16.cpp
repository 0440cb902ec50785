#include "sweepers/cmdo/plane_sweeper_2d3d.hpp"
#include "sweepers/moc/moc_sweeper.hpp"
#include "sweepers/sn/sn_sweeper.hpp"
#include "common.hpp"
#include <cmath>
using namespace mocc::moc;
using namespace mocc::sn;
using namespace mocc::cmdo;

namespace ref {
void MoCSweeper__get_pin_flux_1g(const MoCSweeper &self, int group, ArrayB1 &flux, MeshTreatment treatment)
{
    flux = 0.0;
    switch (treatment) {
    case MeshTreatment::PIN_PLANE: {
        int ireg    = 0;
        int implane = 0;
        for (const auto &mplane : self.mesh_.macroplanes()) {
            int ipin = 0;
            for (const auto mpin : mplane) {
                real_t v        = 0.0;
                real_t pin_flux = 0.0;
                for (int ir = 0; ir < mpin->n_reg(); ir++) {
                    v += self.vol_[ireg];
                    pin_flux += self.flux_(ireg, group) * self.vol_[ireg];
                    ireg++;
                }
                pin_flux /= v;
                Position pos = self.mesh_.pin_position(ipin);
                pos.z        = implane;
                int i        = self.mesh_.coarse_cell(pos);
                flux(i) += pin_flux;
                ipin++;
            }
            implane++;
        }
    } break;
    case MeshTreatment::PIN: {
        int ireg = 0;
        for (const auto &mplane : self.mesh_.macroplanes()) {
            int ipin = 0;
            for (const auto mpin : mplane) {
                real_t v        = 0.0;
                real_t pin_flux = 0.0;
                for (int ir = 0; ir < mpin->n_reg(); ir++) {
                    v += self.vol_[ireg];
                    pin_flux += self.flux_(ireg, group) * self.vol_[ireg];
                    ireg++;
                }
                pin_flux /= v;
                Position pos = self.mesh_.pin_position(ipin);
                for (int iz = mplane.iz_min; iz <= mplane.iz_max; iz++) {
                    pos.z = iz;
                    int i = self.mesh_.coarse_cell(pos);
                    flux(i) += pin_flux;
                }
                ipin++;
            }
        }
    } break;
    default:
        throw EXCEPT("Unsupported mesh treatment requested");
    }
    return;
}

real_t MoCSweeper__set_pin_flux_1g(MoCSweeper &self, int group, const ArrayB1 &pin_flux, MeshTreatment treatment)
{
    ArrayB1 plane_pin_flux(self.mesh_.nx() * self.mesh_.ny() * self.subplane_.size());
    for(auto v: pin_flux) {
        if(v <= 0.0 ) {
            std::stringstream msg;
            msg << "Negative or zero input flux: " << v;
            throw EXCEPT(msg.str());
        }
    }
    real_t resid = 0.0;
    switch (treatment) {
    case MeshTreatment::PIN:
        plane_pin_flux = 0.0;
        for (int i = 0; i < self.mesh_.n_pin(); i++) {
            Position pos = self.mesh_.coarse_position(i);
            int iz       = pos.z;
            pos.z        = self.moc_plane_index(pos.z);
            plane_pin_flux(self.mesh_.coarse_cell(pos)) +=
                pin_flux(i) * self.mesh_.dz(iz);
        }
        for (unsigned i = 0; i < plane_pin_flux.size(); i++) {
            int iz = i / (self.mesh_.nx() * self.mesh_.ny());
            plane_pin_flux(i) /= self.mesh_.macroplane_heights()[iz];
        }
    case MeshTreatment::PIN_PLANE: {
        if (treatment == MeshTreatment::PIN_PLANE) {
            plane_pin_flux = pin_flux;
        }
        int iz       = 0;
        int ireg     = 0;
        for (const auto &mplane : self.mesh_.macroplanes()) {
            int ipin = 0;
            for (const auto &pin : mplane) {
                Position pos   = self.mesh_.pin_position(ipin);
                pos.z          = iz;
                int i_coarse   = self.mesh_.coarse_cell(pos);
                real_t fm_flux = 0.0;
                for (const auto area : pin->areas()) {
                    fm_flux += self.flux_(ireg, group) * area;
                    ireg++;
                }
                fm_flux /= pin->area();
                real_t e = plane_pin_flux(i_coarse) - fm_flux;
                real_t f = plane_pin_flux(i_coarse) / fm_flux;
                ireg -= pin->n_reg();
                for (int ir = 0; ir < pin->n_reg(); ir++) {
                    self.flux_(ireg, group) *= f;
                    ireg++;
                }
                resid += e * e;
                ipin++;
            }
            iz++;
        }
    } break;
    default:
        throw EXCEPT("Unsupported mesh treatment used");
    }
    return std::sqrt(resid) / plane_pin_flux.size();
}

int MoCSweeper__moc_plane_index(const MoCSweeper &self, int iz)
{
    return std::distance(self.subplane_bounds_.begin(),
                         std::upper_bound(self.subplane_bounds_.begin(),
                                          self.subplane_bounds_.end(), iz));
}

void SnSweeper__get_pin_flux_1g(const SnSweeper &self, int group, ArrayB1 &flux, MeshTreatment treatment)
{
    switch (treatment) {
    case MeshTreatment::PIN:
        flux = self.flux_(blitz::Range::all(), group);
        break;
    case MeshTreatment::PIN_PLANE: {
        flux            = 0.0;
        int n_per_plane = self.mesh_.nx() * self.mesh_.ny();
        int imp         = 0;
        int mplane_stt  = 0;
        int mplane_stp  = 0;
        for (const auto &mplane : self.mesh_.macroplanes()) {
            mplane_stp = mplane_stt + n_per_plane;
            for (int iz = mplane.iz_min; iz <= mplane.iz_max; iz++) {
                real_t hz = self.mesh_.dz(iz);
                flux(blitz::Range(mplane_stt, mplane_stp - 1)) +=
                    self.flux_(blitz::Range(self.mesh_.plane_cell_begin(iz),
                                       self.mesh_.plane_cell_end(iz) - 1),
                          group) *
                    hz;
            }
            flux(blitz::Range(mplane_stt, mplane_stp - 1)) /= mplane.height;
            mplane_stt = mplane_stp;
            imp++;
        }
    } break;
    default:
        throw EXCEPT("Unsupported mesh treatment");
    }
    return;
}

real_t SnSweeper__set_pin_flux_1g(SnSweeper &self, int group, const ArrayB1 &pin_flux, MeshTreatment treatment)
{
    real_t resid = 0.0;
    switch (treatment) {
    case MeshTreatment::PIN: {
        int i = 0;
        for (auto &v : pin_flux) {
            real_t e = self.flux_((int)i, (int)group) - v;
            resid += e * e;
            self.flux_((int)i, (int)group) = v;
            i++;
        }
    } break;
    case MeshTreatment::PIN_PLANE: {
        ArrayB1 plane_pin_flux(self.mesh_.n_reg(MeshTreatment::PIN_PLANE));
        self.get_pin_flux_1g(group, plane_pin_flux,
                              MeshTreatment::PIN_PLANE);
        for (int i = 0; i < (int)pin_flux.size(); i++) {
            real_t e = plane_pin_flux(i) - pin_flux(i);
            resid += e * e;
        }
        plane_pin_flux /= pin_flux;
        int n_per_plane = self.mesh_.nx() * self.mesh_.ny();
        int mplane_stt  = 0;
        int mplane_stp  = 0;
        for (const auto &mplane : self.mesh_.macroplanes()) {
            mplane_stp = mplane_stt + n_per_plane;
            for (int iz = mplane.iz_min; iz <= mplane.iz_max; iz++) {
                self.flux_(blitz::Range(self.mesh_.plane_cell_begin(iz),
                                   self.mesh_.plane_cell_end(iz) - 1),
                      group) /=
                    plane_pin_flux(
                        blitz::Range(mplane_stt, mplane_stp - 1));
            }
            mplane_stt = mplane_stp;
        }
    } break;
    default:
        throw EXCEPT("Unsupported mesh treatement type.");
    }
    return std::sqrt(resid);
}

ArrayB2 TransportSweeper__get_pin_flux(const TransportSweeper &self, MeshTreatment treatment)
{
    ArrayB2 flux(self.core_mesh_->n_reg(treatment), self.n_group_);
    for (int ig = 0; ig < self.n_group_; ig++) {
        ArrayB1 flux_1g(flux(blitz::Range::all(), ig));
        self.get_pin_flux_1g(ig, flux_1g, treatment);
    }
    return flux;
}

real_t TransportSweeper__set_pin_flux(TransportSweeper &self, const ArrayB2 &pin_flux, MeshTreatment treatment)
{
    real_t e = 0.0;
    for (int ig = 0; ig < (int)self.n_group_; ig++) {
        ArrayB1 flux_1g = pin_flux(blitz::Range::all(), ig);
        real_t e_g      = self.set_pin_flux_1g(ig, flux_1g, treatment);
        e += e_g * e_g;
    }
    return std::sqrt(e);
}

void PlaneSweeper_2D3D__get_pin_flux_1g(const PlaneSweeper_2D3D &self, int ig, ArrayB1 &flux, MeshTreatment treatment)
{
    if (self.expose_sn_) {
        self.sn_sweeper_->get_pin_flux_1g(ig, flux, treatment);
    } else {
        self.moc_sweeper_.get_pin_flux_1g(ig, flux, treatment);
    }
}

real_t PlaneSweeper_2D3D__set_pin_flux_1g(PlaneSweeper_2D3D &self, int group, const ArrayB1 &pin_flux, MeshTreatment treatment)
{
    self.sn_sweeper_->set_pin_flux_1g(group, pin_flux, treatment);
    real_t diff = 0.0;
    if (self.discrepant_flux_update_) {
        ArrayB1 moc_pin_flux(pin_flux.size());
        for (int i = 0; i < (int)moc_pin_flux.size(); i++) {
            moc_pin_flux(i) =
                std::max(0.0, pin_flux(i) - self.sn_resid_(group, i));
        }
    } else {
        diff = self.moc_sweeper_.set_pin_flux_1g(group, pin_flux,
                                            treatment);
    }
    return diff;
}

// Planes swept by the method of characteristics: the axial planes each one
// spans, the plane geometry it uses and where its regions begin.
void MoCSweeper__ctor(MoCSweeper &self, const pugi::xml_node &input, const CoreMesh &mesh)
{
    self.subplane_bounds_ = VecI();
    int top = 0;
    for (const auto n : mesh.subplane()) {
        self.macroplane_unique_ids_.push_back(mesh.unique_plane_ids()[top]);
        self.nreg_plane_.push_back(mesh.unique_plane(mesh.unique_plane_ids()[top]).n_reg());
        self.subplane_bounds_.push_back(top + n);
        top += n;
    }
    self.first_reg_macroplane_.push_back(0);
    for (const auto &id : self.macroplane_unique_ids_) {
        self.first_reg_macroplane_.push_back(self.first_reg_macroplane_.back() + mesh.unique_plane(id).n_reg());
    }
    self.first_reg_macroplane_.pop_back();
}
}
