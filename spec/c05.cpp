#include "core/source.hpp"
#include "core/source_isotropic.hpp"
#include "core/constants.hpp"
#include "util/h5file.hpp"
#include "core/source_factory.hpp"
#include "sweepers/moc/moc_sweeper.hpp"
#include "sweepers/cmdo/plane_sweeper_2d3d.hpp"
#include "common.hpp"

namespace ref {
// A group's source starts from the external source of that group, or nothing.
void Source__initialize_group(Source &self, int ig)
{
    for (int i = 0; i < self.n_reg_; i++) {
        self.source_1g_[i] = self.has_external_ ? self.external_source_(ig, i) : 0.0;
    }
    self.state_.reset();
}

// chi of the group times the fission source, once for every region.
void Source__fission(Source &self, const ArrayB1 &fs, int ig)
{
    for (auto &xsr : *self.xs_mesh_) {
        for (const int &ireg : xsr.reg()) {
            self.source_1g_[ireg] += xsr.xsmacch(ig) * fs(ireg);
        }
    }
    self.state_.has_fission = true;
}

// Scattering into the group from every other group.
void Source__in_scatter(Source &self, size_t ig)
{
    for (auto &xsr : *self.xs_mesh_) {
        const ScatteringRow &row = xsr.xsmacsc().to(ig);
        for (int igg = row.min_g; igg <= row.max_g; igg++) {
            if (igg == (int)ig) {
                continue;
            }
            for (auto &ireg : xsr.reg()) {
                self.source_1g_[ireg] += row[igg] * self.flux_((int)ireg, igg);
            }
        }
    }
}

void Source__auxiliary(Source &self, const ArrayB1 &aux)
{
    for (int i = 0; i < self.n_reg_; i++) {
        self.source_1g_[i] += aux(i);
    }
}

// Isotropic emission density, optionally divided by the transport cross
// section the sweep uses.
void SourceIsotropic__self_scatter(SourceIsotropic &self, size_t ig, const ArrayB1 &xstr)
{
    for (auto &xsr : *self.xs_mesh_) {
        for (const int ireg : xsr.reg()) {
            real_t s = (self.source_1g_[ireg] + self.flux_(ireg, (int)ig) * xsr.xsmacsc().to(ig)[ig]) / FPI;
            self.q_[ireg] = xstr.size() > 0 ? s / xstr(ireg) : s;
        }
    }
}

void Source__scale(Source &self, const VecF &v)
{
    for (int i = 0; i < self.n_reg_; i++) {
        self.source_1g_[i] *= v[i];
    }
}

void Source__add_external(Source &self, const pugi::xml_node &input)
{
    if (!input.attribute("file").empty()) {
        std::string name = input.attribute("file").value();
        H5Node file(name, H5Access::READ);
        file.read("/source", self.external_source_);
        if (self.external_source_.extent(0) != self.n_group_ || self.external_source_.extent(1) != self.n_reg_) {
            throw EXCEPT("dimensions");
        }
        self.has_external_ = true;
    }
}

void Source__ctor(Source &self, int nreg, const XSMesh *xs_mesh, const ArrayB2 &flux)
{
    self.xs_mesh_      = xs_mesh;
    self.n_group_      = xs_mesh->n_group();
    self.n_reg_        = flux.size() / xs_mesh->n_group();
    self.has_external_ = false;
    self.source_1g_.resize(nreg);
    self.source_1g_.fill(0.0);
    self.state_.reset();
}

UP_Source_t SourceFactory(const pugi::xml_node &input, int n_reg, const XSMesh *xs_mesh, const ArrayB2 &flux)
{
    if (input.empty()) {
        throw EXCEPT("none");
    }
    std::string scattering = input.attribute("scattering").value();
    if (scattering.empty()) {
        throw EXCEPT("no treatment");
    }
    sanitize(scattering);
    if (scattering != "p0") {
        throw EXCEPT("not supported");
    }
    UP_Source_t source;
    source.reset(new SourceIsotropic(n_reg, xs_mesh, flux));
    source->add_external(input);
    return source;
}

// What a coupled source does to one part it does to the other.
void Source_2D3D__initialize_group(cmdo::Source_2D3D &self, int group)
{
    self.Source::initialize_group(group);
    self.sn_source_.initialize_group(group);
}

void Source_2D3D__in_scatter(cmdo::Source_2D3D &self, size_t ig)
{
    self.Source::in_scatter(ig);
    self.sn_source_.in_scatter(ig);
}

void Source_2D3D__fission(cmdo::Source_2D3D &self, const ArrayB1 &fs, int ig)
{
    int n = self.sn_source_.n_reg();
    ArrayB1 moc(fs(blitz::Range(n, blitz::toEnd)));
    ArrayB1 sn(fs(blitz::Range(0, n - 1)));
    self.Source::fission(moc, ig);
    self.sn_source_.fission(sn, ig);
}

// Leakage is added to the source; where splitting is allowed and the sum is
// negative it becomes removal instead.
void MoCSweeper__apply_transverse_leakage(moc::MoCSweeper &self, int group, const ArrayB1 &tl)
{
    self.flux_1g_.reference(self.flux_(blitz::Range::all(), group));
    if (self.allow_splitting_) {
        self.split_ = 0.0;
        for (int i = 0; i < self.n_reg_; i++) {
            real_t s = (*self.source_)[i] + tl(i);
            if (s < 0.0) {
                if (self.flux_1g_(i) < 0.0) {
                    throw EXCEPT("negative flux");
                }
                self.split_(i)     = -s / self.flux_1g_(i);
                (*self.source_)[i] = 0.0;
            } else {
                (*self.source_)[i] = s;
            }
        }
    } else {
        for (int i = 0; i < self.n_reg_; i++) {
            (*self.source_)[i] = (*self.source_)[i] + tl(i);
        }
    }
}
}
