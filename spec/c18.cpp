#include "sweepers/cmdo/plane_sweeper_2d3d.hpp"
#include "sweepers/moc/moc_sweeper.hpp"
#include "sweepers/sn/sn_sweeper.hpp"
#include "sweepers/cmdo/moc_sweeper_2d3d.hpp"
#include "sweepers/cmdo/correction_worker.hpp"
#include "sweepers/cmdo/source_2d3d.hpp"
#include "sweepers/cmdo/sn_sweeper_factory_cdd.hpp"
#include "common.hpp"
#include <cmath>
using namespace mocc::moc;
using namespace mocc::sn;
using namespace mocc::cmdo;

namespace ref {
void PlaneSweeper_2D3D__sweep(PlaneSweeper_2D3D &self, int group)
{
    if (!self.coarse_data_) {
        throw EXCEPT("CMFD must be enabled to do 2D3D.");
    }
    if (group == 0) {
        self.i_outer_++;
    }
    if (self.do_tl_) {
        self.add_tl(group);
    }
    if (self.v_cycle_) {
        self.sn_sweeper_->sweep(group);
        ArrayB1 sn_flux(self.mesh_.n_reg(MeshTreatment::PIN_PLANE));
        self.sn_sweeper_->get_pin_flux_1g(group, sn_flux, MeshTreatment::PIN_PLANE);
        int n_neg = 0;
        for (auto &v : sn_flux) {
            if (v < 0.0) {
                n_neg++;
                v = 0.0;
            }
        }
        if (n_neg > 0) {
        }
        self.moc_sweeper_.set_pin_flux_1g(group, sn_flux, MeshTreatment::PIN_PLANE);
    }
    bool do_moc =
        ((self.i_outer_ + 1) > self.n_inactive_moc_) && ((self.i_outer_ % self.moc_modulo_) == 0);
    if (do_moc) {
        self.moc_sweeper_.sweep(group);
        int n_negative  = 0;
        int n_NaN       = 0;
        const auto flux = self.moc_sweeper_.flux()(blitz::Range::all(), group);
        for (const auto &v : flux) {
            if (v < 0.0) {
                n_negative++;
            }
            if (v != v) {
                n_NaN++;
            }
        }
        if (n_negative > 0) {
        }
        if (n_NaN > 0) {
        }
    }
    ArrayB1 prev_moc_flux = self.prev_moc_flux_(group, blitz::Range::all());
    self.moc_sweeper_.get_pin_flux_1g(group, prev_moc_flux,
                                 MeshTreatment::PIN_PLANE);
    if (self.do_mocproject_) {
        self.sn_sweeper_->set_pin_flux_1g(group, prev_moc_flux,
                                     MeshTreatment::PIN_PLANE);
    }
    self.sn_sweeper_->sweep(group);
    ArrayB1 sn_flux(self.mesh_.n_reg(MeshTreatment::PIN_PLANE));
    self.sn_sweeper_->get_pin_flux_1g(group, sn_flux, MeshTreatment::PIN_PLANE);
    if (self.do_snproject_) {
        int n_neg = 0;
        for (auto &v : sn_flux) {
            if (v < 0.0) {
                n_neg++;
                v = 0.0;
            }
        }
        if (n_neg > 0) {
        }
        self.moc_sweeper_.set_pin_flux_1g(group, sn_flux, MeshTreatment::PIN_PLANE);
    }
    real_t residual = 0.0;
    for (int i = 0; i < (int)prev_moc_flux.size(); i++) {
        real_t diff = prev_moc_flux(i) - sn_flux(i);
        residual += diff * diff;
        self.sn_resid_(group, i) = diff;
    }
    residual = sqrt(residual) / self.mesh_.n_pin();
    if (self.sn_resid_norm_[group].size() > 0) {
    }
    self.sn_resid_norm_[group].push_back(residual);
}

void PlaneSweeper_2D3D__add_tl(PlaneSweeper_2D3D &self, int group)
{
    ArrayB1 tl_fsr(self.n_reg_);
    blitz::Array<real_t, 1> tl_g = self.tl_(group, blitz::Range::all());
    int iplane   = 0;
    int ireg_pin = 0;
    int ipin     = 0;
    for (const auto &mplane : self.mesh_.macroplanes()) {
        real_t dz = mplane.height;
        for (const auto &mpin : mplane) {
            Position pos  = self.mesh_.pin_position(ipin);
            pos.z         = mplane.iz_min;
            size_t icell  = self.mesh_.coarse_cell(pos);
            int surf_down = self.mesh_.coarse_surf(icell, Surface::BOTTOM);
            pos.z         = mplane.iz_max;
            icell         = self.mesh_.coarse_cell(pos);
            int surf_up   = self.mesh_.coarse_surf(icell, Surface::TOP);
            pos.z       = iplane;
            int icoarse = self.mesh_.coarse_cell(pos);
            real_t j_up   = self.coarse_data_->current(surf_up, group);
            real_t j_down = self.coarse_data_->current(surf_down, group);
            tl_g(icoarse) =
                tl_g(icoarse) * (1.0 - self.relax_) + self.relax_ * (j_down - j_up) / dz;
            for (int ir = 0; ir < mpin->n_reg(); ir++) {
                tl_fsr(ireg_pin) = tl_g(icoarse);
                ireg_pin++;
            }
            ipin++;
        }
        iplane++;
    }
    self.moc_sweeper_.apply_transverse_leakage(group, tl_fsr);
}

void PlaneSweeper_2D3D__initialize(PlaneSweeper_2D3D &self)
{
    self.sn_sweeper_->initialize();
    self.moc_sweeper_.initialize();
}

void PlaneSweeper_2D3D__get_pin_flux_1g(const PlaneSweeper_2D3D &self, int ig, ArrayB1 &flux, MeshTreatment treatment)
{
    if (self.expose_sn_) {
        self.sn_sweeper_->get_pin_flux_1g(ig, flux, treatment);
    } else {
        self.moc_sweeper_.get_pin_flux_1g(ig, flux, treatment);
    }
}

// Discrepant updates are refused when the sweeper is built
real_t PlaneSweeper_2D3D__set_pin_flux_1g(PlaneSweeper_2D3D &self, int group, const ArrayB1 &pin_flux,
                                          MeshTreatment treatment)
{
    self.sn_sweeper_->set_pin_flux_1g(group, pin_flux, treatment);
    if (!self.discrepant_flux_update_) {
        return self.moc_sweeper_.set_pin_flux_1g(group, pin_flux, treatment);
    }
    return 0.0;
}

void PlaneSweeper_2D3D__assign_source(PlaneSweeper_2D3D &self, Source *source)
{
    self.source_ = source;
    self.moc_sweeper_.assign_source(source);
    Source_2D3D *s = static_cast<Source_2D3D *>(source);
    self.sn_sweeper_->assign_source(s->get_sn_source());
}

UP_Source_t PlaneSweeper_2D3D__create_source(const PlaneSweeper_2D3D &self, const pugi::xml_node &input)
{
    std::cout << "creating 2d3d source" << std::endl;
    auto source = UP_Source_t(new Source_2D3D(self.moc_sweeper_, *self.sn_sweeper_));
    return source;
}

SP_XSMeshHomogenized_t PlaneSweeper_2D3D__get_homogenized_xsmesh(PlaneSweeper_2D3D &self)
{
    return self.sn_sweeper_->get_homogenized_xsmesh();
}

int PlaneSweeper_2D3D__n_reg(const PlaneSweeper_2D3D &self)
{
    if (self.expose_sn_) {
        return self.sn_sweeper_->n_reg();
    } else {
        return self.moc_sweeper_.n_reg();
    }
}

void PlaneSweeper_2D3D__store_old_flux(PlaneSweeper_2D3D &self)
{
    self.moc_sweeper_.store_old_flux();
    self.sn_sweeper_->store_old_flux();
    return;
}

void PlaneSweeper_2D3D__set_coarse_data(PlaneSweeper_2D3D &self, CoarseData *cd)
{
    self.coarse_data_ = cd;
    self.moc_sweeper_.set_coarse_data(cd);
    self.sn_sweeper_->set_coarse_data(cd);
}

void CurrentCorrections__calculate_corrections(CurrentCorrections &self, size_t ang, size_t group)
{
    const Angle &a = self.ang_quad_[ang];
    int reverse    = self.ang_quad_.reverse(ang);
    real_t wide_x  = std::abs(self.rays_.spacing(ang) / cos(a.alpha));
    real_t wide_y  = std::abs(self.rays_.spacing(ang) / sin(a.alpha));
    Surface in     = a.ox > 0.0 ? Surface::WEST : Surface::EAST;
    Surface out    = a.ox > 0.0 ? Surface::EAST : Surface::WEST;
    self.xstr_sn_.expand(group);
    for (unsigned ic = 0; ic < self.mesh_->n_cell_plane(); ic++) {
        int cell     = ic + self.cell_offset_;
        auto pos     = self.mesh_->coarse_position(ic);
        real_t fx    = wide_x / self.mesh_->pin_dx()[pos.x];
        real_t fy    = wide_y / self.mesh_->pin_dy()[pos.y];
        real_t xstr  = self.xstr_sn_[ic + self.cell_offset_xs_];
        int west     = self.mesh_->coarse_surf(ic, in);
        int east     = self.mesh_->coarse_surf(ic, out);
        int south    = self.mesh_->coarse_surf(ic, Surface::SOUTH);
        int north    = self.mesh_->coarse_surf(ic, Surface::NORTH);

        real_t psi_x = self.surf_sum_(west * 2) * fx + self.surf_sum_(east * 2) * fx;
        real_t psi_y = self.surf_sum_(south * 2) * fy + self.surf_sum_(north * 2) * fy;
        real_t ax    = self.vol_sum_(ic * 2) / psi_x;
        real_t ay    = self.vol_sum_(ic * 2) / psi_y;
        real_t b     = self.sigt_sum_(ic * 2) / xstr;
        real_t ex    = ax - self.corrections_->alpha(cell, ang, group, Normal::X_NORM);
        real_t ey    = ay - self.corrections_->alpha(cell, ang, group, Normal::Y_NORM);
        real_t eb    = b - self.corrections_->beta(cell, ang, group);
        self.residual_[0] += ex * ex;
        self.residual_[1] += ey * ey;
        self.residual_[2] += eb * eb;
        self.corrections_->alpha(cell, ang, group, Normal::X_NORM) = ax;
        self.corrections_->alpha(cell, ang, group, Normal::Y_NORM) = ay;
        self.corrections_->beta(cell, ang, group)                  = b;

        psi_x = self.surf_sum_(west * 2 + 1) * fx + self.surf_sum_(east * 2 + 1) * fx;
        psi_y = self.surf_sum_(south * 2 + 1) * fy + self.surf_sum_(north * 2 + 1) * fy;
        ax    = self.vol_sum_(ic * 2 + 1) / psi_x;
        ay    = self.vol_sum_(ic * 2 + 1) / psi_y;
        b     = self.sigt_sum_(ic * 2 + 1) / xstr;
        ex    = ax - self.corrections_->alpha(cell, reverse, group, Normal::X_NORM);
        ey    = ay - self.corrections_->alpha(cell, reverse, group, Normal::Y_NORM);
        eb    = b - self.corrections_->beta(cell, reverse, group);
        self.residual_[0] += ex * ex;
        self.residual_[1] += ey * ey;
        self.residual_[2] += eb * eb;
        self.corrections_->alpha(cell, reverse, group, Normal::X_NORM) = ax;
        self.corrections_->alpha(cell, reverse, group, Normal::Y_NORM) = ay;
        self.corrections_->beta(cell, reverse, group)                  = b;
    }
}

void MoCSweeper_2D3D__sweep(MoCSweeper_2D3D &self, int group)
{
    self.timer_.tic();
    self.timer_sweep_.tic();
    if (!self.coarse_data_) {
        throw EXCEPT("2D3D MoC sweeper needs coarse data to collect "
                     "calculate correction factors. Try enabling CMFD.");
    }
    self.n_sweep_++;
    self.xstr_.expand(group, self.split_);
    if (self.allow_splitting_) {
        self.xstr_true_.expand(group);
    }
    CurrentCorrections ccw(self.coarse_data_, &self.mesh_, self.corrections_.get(),
                           self.source_->get_transport(0), self.xstr_true_, self.xstr_,
                           self.xstr_sn_, self.ang_quad_, self.rays_);
    moc::NoCurrent ncw(self.coarse_data_, &self.mesh_);
    auto all = blitz::Range::all();
    self.flux_1g_.reference(self.flux_(all, group));
    for (unsigned int inner = 0; inner < self.n_inner_; inner++) {
        self.n_sweep_inner_++;
        self.source_->self_scatter(group, self.xstr_.xs());
        if (inner == self.n_inner_ - 1 && self.coarse_data_) {
            self.coarse_data_->zero_data_radial(group);
            self.sn_xs_mesh_->update();
            self.sweep1g(group, ccw);
            self.coarse_data_->set_has_radial_data(true);
            self.correction_residuals_[group].push_back(ccw.residual());
        } else {
            self.sweep1g(group, ncw);
        }
    }
    self.timer_.toc();
    self.timer_sweep_.toc();
    return;
}

void MoCSweeper_2D3D__set_coupling(MoCSweeper_2D3D &self, std::shared_ptr<CorrectionData> data, SP_XSMeshHomogenized_t xsmesh, ExpandedXS &xstr)
{
    if (self.corrections_ || self.sn_xs_mesh_) {
        throw EXCEPT("Correction data already assigned.");
    }
    self.corrections_ = data;
    self.sn_xs_mesh_  = xsmesh;
    self.xstr_sn_     = xstr;
}

void MoCSweeper_2D3D__set_self_coupling(MoCSweeper_2D3D &self)
{
    self.internal_coupling_ = true;
    self.corrections_       = std::shared_ptr<CorrectionData>(new CorrectionData(
        self.mesh_, self.ang_quad_.ndir() / 2, self.xs_mesh_->n_group()));
    self.sn_xs_mesh_ = self.get_homogenized_xsmesh();
    self.sn_xs_mesh_->set_flux(self.flux_);
    self.xstr_sn_ = ExpandedXS(self.sn_xs_mesh_.get());
}

template <class S> struct Factors {
    real_t x, y, tx;
};

template <class S, class T>
Factors<S> fn__factors(const S &self, int cell, int i, const T &t)
{
    Factors<S> f;
    real_t b = self.corrections_->beta_(self.group_, t.iang_2d, cell);
    f.x      = self.corrections_->alpha_(self.group_, t.iang_2d, cell, 0) * b;
    f.y      = self.corrections_->alpha_(self.group_, t.iang_2d, cell, 1) * b;
    f.tx     = t.ox / self.mesh_.dx(i % self.mesh_.nx());
    return f;
}

real_t cdd__evaluate_2d(const SnSweeper_CDD_DD &self, real_t &flux_x, real_t &flux_y, real_t q, real_t xstr, int i,
                        const SnSweeper_CDD_DD::ThreadState &t)
{
    auto f     = fn__factors(self, i, i, t);
    real_t psi = (q + 2.0 * (f.tx * flux_x + t.ty * flux_y)) / (f.tx / f.x + t.ty / f.y + xstr);
    flux_x     = psi / f.x - flux_x;
    flux_y     = psi / f.y - flux_y;
    return psi;
}

real_t SnSweeper_CDD_DD__evaluate(const SnSweeper_CDD_DD &self, real_t &flux_x, real_t &flux_y, real_t &flux_z, real_t q, real_t xstr, int i,
                         const SnSweeper_CDD_DD::ThreadState &t)
{
    auto f     = fn__factors(self, t.macroplane * self.plane_size_ + i % self.plane_size_, i, t);
    real_t in  = q + 2.0 * (f.tx * flux_x + t.ty * flux_y);
    real_t out = f.tx / f.x + t.ty / f.y + xstr;
    real_t psi = (in + 2.0 * t.tz * flux_z) / (out + 2.0 * t.tz);
    flux_z     = 2.0 * psi - flux_z;
    flux_x = psi / f.x - flux_x;
    flux_y = psi / f.y - flux_y;
    return psi;
}

real_t SnSweeper_CDD_DD_FF__evaluate(const SnSweeper_CDD_DD_FF &self, real_t &flux_x, real_t &flux_y, real_t &flux_z, real_t q, real_t xstr, int i,
                         const SnSweeper_CDD_DD_FF::ThreadState &t)
{
    auto f     = fn__factors(self, t.macroplane * self.plane_size_ + i % self.plane_size_, i, t);
    real_t in  = q + 2.0 * (f.tx * flux_x + t.ty * flux_y);
    real_t out = f.tx / f.x + t.ty / f.y + xstr;
    real_t psi = (in + 2.0 * t.tz * flux_z) / (out + 2.0 * t.tz);
    real_t top = 2.0 * psi - flux_z;
    if (top < 0.0) {
        psi    = (in + t.tz * flux_z) / out;
        flux_z = 0.0;
    } else {
        flux_z = top;
    }
    flux_x = psi / f.x - flux_x;
    flux_y = psi / f.y - flux_y;
    return psi;
}

real_t SnSweeper_CDD_FW__evaluate(const SnSweeper_CDD_FW &self, real_t &flux_x, real_t &flux_y, real_t &flux_z, real_t q, real_t xstr, int i,
                         const SnSweeper_CDD_FW::ThreadState &t)
{
    auto f     = fn__factors(self, t.macroplane * self.plane_size_ + i % self.plane_size_, i, t);
    real_t in  = q + 2.0 * (f.tx * flux_x + t.ty * flux_y);
    real_t out = f.tx / f.x + t.ty / f.y + xstr;
    real_t psi = (in + t.tz * flux_z) / (out + t.tz);
    flux_z     = psi;
    flux_x = psi / f.x - flux_x;
    flux_y = psi / f.y - flux_y;
    return psi;
}

real_t SnSweeper_CDD_SC__evaluate(const SnSweeper_CDD_SC &self, real_t &flux_x, real_t &flux_y, real_t &flux_z, real_t q, real_t xstr, int i,
                         const SnSweeper_CDD_SC::ThreadState &t)
{
    auto f     = fn__factors(self, t.macroplane * self.plane_size_ + i % self.plane_size_, i, t);
    real_t in  = q + 2.0 * (f.tx * flux_x + t.ty * flux_y);
    real_t out = f.tx / f.x + t.ty / f.y + xstr;
    real_t tau = xstr / t.tz;
    real_t rho = 1.0 / tau - 1.0 / (self.exponential_.exp(tau) - 1.0);
    real_t psi = (in + t.tz * (rho / (1.0 - rho) + 1.0) * flux_z) / (out + t.tz / (1.0 - rho));
    flux_z     = (psi - rho * flux_z) / (1.0 - rho);
    flux_x = psi / f.x - flux_x;
    flux_y = psi / f.y - flux_y;
    return psi;
}

real_t SnSweeper_CDD_PMB__evaluate(const SnSweeper_CDD_PMB &self, real_t &flux_x, real_t &flux_y, real_t &flux_z, real_t q, real_t xstr, int i,
                         const SnSweeper_CDD_PMB::ThreadState &t)
{
    auto f     = fn__factors(self, t.macroplane * self.plane_size_ + i % self.plane_size_, i, t);
    real_t in  = q + 2.0 * (f.tx * flux_x + t.ty * flux_y);
    real_t out = f.tx / f.x + t.ty / f.y + xstr;
    real_t psi = (in - t.tz * q / (2.0 * t.tz + xstr) + t.tz * flux_z) / (out + t.tz * t.tz / (t.tz + 0.5 * xstr));
    flux_z     = (2.0 * psi * t.tz + q) / (2.0 * t.tz + xstr);
    flux_x = psi / f.x - flux_x;
    flux_y = psi / f.y - flux_y;
    return psi;
}

real_t &CorrectionData__alpha(CorrectionData &self, int reg, int ang, int group, Normal norm)
{
    return self.alpha_(group, ang, reg, (int)norm);
}

real_t &CorrectionData__beta(CorrectionData &self, int reg, int ang, int group)
{
    return self.beta_(group, ang, reg);
}

void CorrectionData__ctor(CorrectionData &self, const CoreMesh &mesh, size_t nang, size_t ngroup)
{
    self.mesh_   = &mesh;
    self.nx_     = mesh.nx();
    self.ny_     = mesh.ny();
    self.nz_     = mesh.macroplanes().size();
    self.nreg_   = mesh.nx() * mesh.ny() * (int)mesh.macroplanes().size();
    self.nang_   = nang;
    self.ngroup_ = ngroup;
    self.alpha_.resize((int)ngroup, (int)nang, mesh.nx() * mesh.ny() * (int)mesh.macroplanes().size(), 2);
    self.beta_.resize((int)ngroup, (int)nang, mesh.nx() * mesh.ny() * (int)mesh.macroplanes().size());
    self.alpha_ = 0.5;
    self.beta_  = 1.0;
}

void CorrectionData__read_data_single(CorrectionData &self, const pugi::xml_node &data, int bottom_plane, int top_plane)
{
    {
        int bot_plane_in = 0;
        int top_plane_in = self.mesh_->macroplanes().size() - 1;
        if (!data.attribute("top_plane").empty()) {
            top_plane_in = data.attribute("top_plane").as_int(-1);
        }
        if (!data.attribute("bottom_plane").empty()) {
            bot_plane_in = data.attribute("bottom_plane").as_int(-1);
        }
        if ((bot_plane_in != bottom_plane) || (top_plane_in != top_plane)) {
            throw EXCEPT("");
        }
    }
    H5Node h5d(data.attribute("file").value(), H5Access::READ);
    auto dims = h5d.dimensions("alpha_x/000/000");
    if ((dims.size() != 3) || (dims[2] != self.nx_) || (dims[1] != self.ny_)) {
        throw EXCEPT("");
    }
    int n_plane = dims[0] == self.nz_ ? self.nz_ : 1;
    int n_cell  = self.nx_ * self.ny_;
    ArrayB1 inbuf(n_cell * n_plane);
    for (int ig = 0; ig < self.ngroup_; ig++) {
        for (int iang = 0; iang < self.nang_; iang++) {
            {
                std::stringstream path;
                path << "/alpha_x/" << std::setw(3) << std::setfill('0') << ig
                     << "/" << std::setw(3) << std::setfill('0') << iang;
                try {
                    h5d.read(path.str(), inbuf);
                } catch (Exception e) {
                    throw EXCEPT("");
                }
                for (int ip = bottom_plane; ip <= top_plane; ip++) {
                    int stt = self.mesh_->plane_cell_begin(ip);
                    int stp = self.mesh_->plane_cell_end(ip) - 1;
                    int in  = n_plane > 1 ? stt : 0;
                    self.alpha_(ig, iang, blitz::Range(stt, stp),
                           (int)Normal::X_NORM) =
                        inbuf(blitz::Range(in, in + n_cell - 1));
                }
            }
            {
                std::stringstream path;
                path << "/alpha_y/" << std::setw(3) << std::setfill('0') << ig
                     << "/" << std::setw(3) << std::setfill('0') << iang;
                try {
                    h5d.read(path.str(), inbuf);
                } catch (Exception e) {
                    throw EXCEPT("");
                }
                for (int ip = bottom_plane; ip <= top_plane; ip++) {
                    int stt = self.mesh_->plane_cell_begin(ip);
                    int stp = self.mesh_->plane_cell_end(ip) - 1;
                    int in  = n_plane > 1 ? stt : 0;
                    self.alpha_(ig, iang, blitz::Range(stt, stp),
                           (int)Normal::Y_NORM) =
                        inbuf(blitz::Range(in, in + n_cell - 1));
                }
            }
            {
                std::stringstream path;
                path << "/beta/" << std::setw(3) << std::setfill('0') << ig
                     << "/" << std::setw(3) << std::setfill('0') << iang;
                try {
                    h5d.read(path.str(), inbuf);
                } catch (Exception e) {
                    throw EXCEPT("");
                }
                for (int ip = bottom_plane; ip <= top_plane; ip++) {
                    int stt = self.mesh_->plane_cell_begin(ip);
                    int stp = self.mesh_->plane_cell_end(ip) - 1;
                    int in  = n_plane > 1 ? stt : 0;
                    self.beta_(ig, iang, blitz::Range(stt, stp)) =
                        inbuf(blitz::Range(in, in + n_cell - 1));
                }
            }
        }
    }
    return;
}

void CorrectionData__read_data_multi(CorrectionData &self, const pugi::xml_node &input)
{
    int np = self.mesh_->macroplanes().size();
    {
        std::vector<bool> plane_data(np, false);
        for (auto data = input.child("data"); data;
             data      = data.next_sibling("data")) {
            int top_plane = np - 1;
            int bot_plane = 0;
            if (!data.attribute("top_plane").empty()) {
                top_plane = data.attribute("top_plane").as_int();
            }
            if (!data.attribute("bottom_plane").empty()) {
                bot_plane = data.attribute("bottom_plane").as_int();
            }
            if ((bot_plane < 0) || (bot_plane >= np)) {
                throw EXCEPT("");
            }
            if ((top_plane < 0) || (top_plane >= np)) {
                throw EXCEPT("");
            }
            if (bot_plane > top_plane) {
                throw EXCEPT("");
            }
            if (data.attribute("file").empty()) {
                throw EXCEPT("");
            }
            for (int ip = bot_plane; ip <= top_plane; ip++) {
                if (plane_data[ip]) {
                    throw EXCEPT("");
                }
                plane_data[ip] = true;
            }
        }
    }
    ArrayB1 slice(self.mesh_->n_cell_plane());
    for (auto data = input.child("data"); data;
         data      = data.next_sibling("data")) {
        int top_plane = np - 1;
        int bot_plane = 0;
        if (!data.attribute("top_plane").empty()) {
            top_plane = data.attribute("top_plane").as_int();
        }
        if (!data.attribute("bottom_plane").empty()) {
            bot_plane = data.attribute("bottom_plane").as_int();
        }
        self.read_data_single(data, bot_plane, top_plane);
    }
    return;
}

void CorrectionData__from_data(CorrectionData &self, const pugi::xml_node &input)
{
    if (input.child("data").empty()) {
        return;
    }
    int np = self.mesh_->macroplanes().size();
    int n_data = 0;
    for (const auto &d : input.children("data")) {
        n_data++;
    }
    bool single_file = false;
    if (n_data == 1) {
        H5Node h5d(input.child("data").attribute("file").value(),
                   H5Access::READ);
        auto dims = h5d.dimensions("alpha_x/000/000");
        if ((dims.size() == 3) && (dims[2] == self.mesh_->nx()) && (dims[1] == self.mesh_->ny()) &&
            ((int)dims[0] == np)) {
            single_file = true;
        }
    }
    if (single_file) {
        self.read_data_single(input.child("data"));
    } else {
        self.read_data_multi(input);
    }
    return;
}

} // namespace ref
