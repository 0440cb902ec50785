#include "core/material.hpp"
#include "core/material_lib.hpp"
#include "core/scattering_matrix.hpp"
#include "core/xs_mesh.hpp"
#include "core/xs_mesh_homogenized.hpp"
#include "core/xs_mesh_region.hpp"
#include "common.hpp"
#include <algorithm>
#include <map>

namespace ref {
// Transport is absorption plus everything scattered out of the group; the
// fission spectrum is a distribution.
void Material__ctor(Material &self, VecF xsab, VecF xsnf, VecF xsf, VecF xsch, std::vector<VecF> scat)
{
    self.xssc_ = ScatteringMatrix(scat);
    self.xsab_.resize(xsab.size());
    self.xstr_.resize(xsab.size());
    self.xsnf_.resize(xsab.size());
    self.xsf_.resize(xsab.size());
    self.xsch_.resize(xsab.size());
    for (unsigned g = 0; g < xsab.size(); g++) {
        self.xsab_(g) = xsab[g];
        self.xsnf_(g) = xsnf[g];
        self.xsf_(g)  = xsf[g];
        self.xsch_(g) = xsch[g];
    }
    bool fissile = false;
    for (auto v : self.xsnf_) {
        if (v > 0.0) {
            fissile = true;
        }
    }
    self.is_fissile_ = fissile;
    bool spectrum    = false;
    for (auto v : self.xsch_) {
        if (v > 0.0) {
            spectrum = true;
        }
    }
    if (spectrum) {
        real_t total = 0.0;
        for (auto v : self.xsch_) {
            total += v;
        }
        for (auto &v : self.xsch_) {
            v /= total;
        }
    }
    int ng = self.xsab_.size();
    for (int g = 0; g < ng; g++) {
        self.xstr_(g) = xsab[g] + self.xssc_.out(g);
    }
}

// Every row runs from the first to the last group scattering into it and
// always holds within-group scattering; nothing inside that range is lost.
void ScatteringMatrix__ctor(ScatteringMatrix &self, const ArrayB2 &scat)
{
    self.ng_  = scat.extent(0);
    self.out_ = VecF(self.ng_, 0.0);
    int size  = 0;
    std::vector<std::pair<int, int>> bounds;
    for (int to = 0; to < self.ng_; to++) {
        std::pair<int, int> b;
        for (int from = 0; from < self.ng_; from++) {
            b.first = from;
            if (scat(to, from) > 0.0) {
                break;
            }
        }
        for (int from = self.ng_ - 1; from >= 0; from--) {
            b.second = from;
            if (scat(to, from) > 0.0) {
                break;
            }
        }
        if (b.first == self.ng_ - 1 && b.second == 0) {
            b.first  = to;
            b.second = to;
        }
        b.first  = (b.first > to) ? to : b.first;
        b.second = (b.second < to) ? to : b.second;
        size += b.second - b.first + 1;
        bounds.push_back(b);
    }
    int to  = 0;
    int pos = 0;
    for (auto &b : bounds) {
        for (int from = b.first; from <= b.second; from++) {
            self.scat_.push_back(scat(to, from));
            self.out_[from] += scat(to, from);
        }
        self.rows_.push_back(ScatteringRow(b.first, b.second, &self.scat_[pos]));
        to++;
        pos += b.second - b.first + 1;
    }
}

ArrayB2 convert_vvec(const std::vector<VecF> &scat)
{
    for (const auto &row : scat) {
        if (row.size() != scat.size()) {
            throw EXCEPT("not square");
        }
    }
    ArrayB2 a(scat.size(), scat.size(), 0.0);
    int i = 0;
    for (const auto &row : scat) {
        int j = 0;
        for (const auto &v : row) {
            a(i, j) = v;
            j++;
        }
        i++;
    }
    return a;
}

// A copy has its own values, and its rows refer to those.
void ScatteringMatrix__copy(ScatteringMatrix &self, const ScatteringMatrix &other)
{
    self.ng_   = other.ng_;
    self.scat_ = other.scat_;
    self.out_  = other.out_;
    int pos    = 0;
    for (auto &row : other.rows_) {
        self.rows_.push_back(ScatteringRow(row.min_g, row.max_g, &self.scat_[pos]));
        pos += row.max_g - row.min_g + 1;
    }
}

ScatteringMatrix &ScatteringMatrix__assign(ScatteringMatrix &self, const ScatteringMatrix &rhs)
{
    if (&self == &rhs) {
        return self;
    }
    self.ng_   = rhs.ng_;
    self.scat_ = rhs.scat_;
    self.out_  = rhs.out_;
    self.rows_.clear();
    int pos = 0;
    for (auto &row : rhs.rows_) {
        self.rows_.push_back(ScatteringRow(row.min_g, row.max_g, &self.scat_[pos]));
        pos += row.max_g - row.min_g + 1;
    }
    return self;
}

real_t ScatteringMatrix__self_scat(const ScatteringMatrix &self, int group)
{
    return self.rows_[group].from[group - self.rows_[group].min_g];
}

real_t ScatteringMatrix__out(const ScatteringMatrix &self, unsigned int ig)
{
    return self.out_[ig];
}

const ScatteringRow &ScatteringMatrix__to(const ScatteringMatrix &self, int ig)
{
    return self.rows_[ig];
}

// Cumulative distribution of the group scattered into from group ig
VecF ScatteringMatrix__out_cdf(const ScatteringMatrix &self, int ig)
{
    VecF cdf;
    real_t sum = 0.0;
    for (int to = 0; to < self.ng_; to++) {
        const ScatteringRow &row = self.rows_[to];
        if (ig >= row.min_g && ig <= row.max_g) {
            sum += row.from[ig - row.min_g] / self.out_[ig];
        }
        cdf.push_back(sum);
    }
    return cdf;
}

VecF ScatteringMatrix__as_vector(const ScatteringMatrix &self)
{
    VecF sc(self.ng_ * self.ng_, 0.0);
    int to = 0;
    for (const auto &row : self.rows_) {
        for (int from = row.min_g; from <= row.max_g; from++) {
            sc[self.ng_ * to + from] = row[from];
        }
        to++;
    }
    return sc;
}

bool ScatteringRow__equal(const ScatteringRow &self, const ScatteringRow &other)
{
    if (&self == &other) {
        return true;
    }
    return self.min_g == other.min_g && self.max_g == other.max_g &&
           std::equal(self.begin(), self.end(), other.begin());
}

real_t ScatteringRow__at(const ScatteringRow &self, int g)
{
    return self.from[g - self.min_g];
}

void XSMeshRegion__ctor(XSMeshRegion &self, const VecI &fsrs, real_t *xstr, real_t *xsnf, real_t *xsch, real_t *xsf,
                        real_t *xsrm, const ScatteringMatrix &xssc)
{
    self.reg_        = fsrs;
    self.xsmactr_    = xstr;
    self.xsmacnf_    = xsnf;
    self.xsmacf_     = xsf;
    self.xsmacch_    = xsch;
    self.xsmacrm_    = xsrm;
    self.xsmacsc_    = xssc;
    for (int g = 0; g < self.n_group(); g++) {
        self.xsmacrm_[g] = self.xsmactr_[g] - self.xsmacsc_.self_scat(g);
    }
}

void XSMeshRegion__update(XSMeshRegion &self, const VecF &xstr, const VecF &xsnf, const VecF &xsch, const VecF &xsf,
                          const ScatteringMatrix &xssc)
{
    for (int g = 0; g < xssc.n_group(); g++) {
        self.xsmactr_[g] = xstr[g];
        self.xsmacnf_[g] = xsnf[g];
        self.xsmacch_[g] = xsch[g];
        self.xsmacf_[g]  = xsf[g];
        self.xsmacrm_[g] = xstr[g] - xssc.self_scat(g);
    }
    self.xsmacsc_ = xssc;
}

void XSMeshRegion__update_removal(XSMeshRegion &self)
{
    for (int g = 0; g < self.xsmacsc_.n_group(); g++) {
        self.xsmacrm_[g] = self.xsmactr_[g] - self.xsmacsc_.self_scat(g);
    }
}

const real_t &XSMeshRegion__xsmactr(const XSMeshRegion &self, int ig)
{
    return self.xsmactr_[ig];
}
const real_t &XSMeshRegion__xsmacnf(const XSMeshRegion &self, int ig)
{
    return self.xsmacnf_[ig];
}
const real_t &XSMeshRegion__xsmacf(const XSMeshRegion &self, int ig)
{
    return self.xsmacf_[ig];
}
const real_t &XSMeshRegion__xsmacch(const XSMeshRegion &self, int ig)
{
    return self.xsmacch_[ig];
}
const real_t &XSMeshRegion__xsmacrm(const XSMeshRegion &self, int ig)
{
    return self.xsmacrm_[ig];
}
const ScatteringRow &XSMeshRegion__xsmacsc(const XSMeshRegion &self, int ig)
{
    return self.xsmacsc_.to(ig);
}

VecF XSMeshRegion__reaction_cdf(const XSMeshRegion &self, int ig)
{
    VecF cdf(3, 0.0);
    cdf[0] = self.xsmacsc_.out(ig) / self.xsmactr_[ig];
    cdf[1] = cdf[0] + self.xsmacf_[ig] / self.xsmactr_[ig];
    cdf[2] = 1.0;
    return cdf;
}

VecF XSMeshRegion__chi_cdf(const XSMeshRegion &self)
{
    VecF cdf;
    real_t sum = 0.0;
    for (int g = 0; g < self.n_group(); g++) {
        sum += self.xsmacch_[g];
        cdf.push_back(sum);
    }
    return cdf;
}

bool XSMeshRegion__equal(const XSMeshRegion &self, const XSMeshRegion &other)
{
    if (&self == &other) {
        return true;
    }
    if (self.n_group() != other.n_group()) {
        return false;
    }
    for (int g = 0; g < self.n_group(); g++) {
        if (!(fp_equiv_ulp(self.xsmactr_[g], other.xsmactr_[g]) && fp_equiv_ulp(self.xsmacnf_[g], other.xsmacnf_[g]) &&
              fp_equiv_ulp(self.xsmacf_[g], other.xsmacf_[g]) && fp_equiv_ulp(self.xsmacch_[g], other.xsmacch_[g]) &&
              fp_equiv_ulp(self.xsmacrm_[g], other.xsmacrm_[g]) && !(self.xsmacsc_ != other.xsmacsc_))) {
            return false;
        }
    }
    return true;
}

void XSMesh__allocate_xs(XSMesh &self, int nxs, int ng)
{
    auto shape = blitz::shape(nxs, ng);
    self.xstr_.resize(shape);
    self.xsnf_.resize(shape);
    self.xsch_.resize(shape);
    self.xsf_.resize(shape);
    self.xsrm_.resize(shape);
}

// Every flat region gets the data of the material of its own pin region.
void XSMesh__ctor(XSMesh &self, const CoreMesh &mesh, MeshTreatment treatment)
{
    self.state_            = 0;
    self.n_reg_expanded_   = 0;
    const MaterialLib &lib = mesh.mat_lib();
    self.ng_               = lib.n_group();
    self.eubounds_         = lib.g_bounds();
    std::map<int, VecI> where;
    if (treatment == MeshTreatment::TRUE) {
        int ireg = 0;
        for (const auto &pin : mesh) {
            int ixs = 0;
            for (auto id : pin->mat_ids()) {
                for (size_t r = 0; r < pin->mesh().n_fsrs(ixs); r++) {
                    where[id].push_back(ireg);
                    ireg++;
                }
                ixs++;
            }
        }
    } else if (treatment == MeshTreatment::PLANE) {
        int ireg = 0;
        for (const auto &mplane : mesh.macroplanes()) {
            for (const auto &pin : mplane) {
                int ixs = 0;
                for (const auto id : pin->mat_ids()) {
                    for (unsigned r = 0; r < pin->mesh().n_fsrs(ixs); r++) {
                        where[id].push_back(ireg);
                        ireg++;
                    }
                    ixs++;
                }
            }
        }
    } else {
        return;
    }
    self.allocate_xs(where.size(), self.ng_);
    self.n_reg_expanded_ = 0;
    int n_xsreg          = where.size();
    VecI ids(n_xsreg);
    int i                = 0;
    for (const auto &p : where) {
        ids[i] = p.first;
        const auto &mat                   = lib[p.first];
        self.xstr_(i, blitz::Range::all()) = mat.xstr();
        self.xsnf_(i, blitz::Range::all()) = mat.xsnf();
        self.xsch_(i, blitz::Range::all()) = mat.xsch();
        self.xsf_(i, blitz::Range::all())  = mat.xsf();
        self.n_reg_expanded_ += p.second.size();
        i++;
    }
    i = 0;
    for (auto &p : where) {
        self.regions_.emplace_back(p.second, &self.xstr_(i, 0), &self.xsnf_(i, 0), &self.xsch_(i, 0), &self.xsf_(i, 0),
                                   &self.xsrm_(i, 0), lib[ids[i]].xssc());
        i++;
    }
}

void MaterialLib__assignID(MaterialLib &self, int id, std::string name)
{
    int m = self.material_names_.at(name);
    self.assigned_materials_.push_back(self.lib_materials_[m]);
    self.material_dense_index_[id] = self.n_material_;
    self.material_ids_[id]         = m;
    self.n_material_++;
}

const Material &MaterialLib__get_material_by_id(const MaterialLib &self, unsigned int id)
{
    return self.lib_materials_[self.material_ids_.at(id)];
}

int MaterialLib__get_index_by_id(const MaterialLib &self, unsigned int id)
{
    return self.material_dense_index_.at(id);
}

bool MaterialLib__has(const MaterialLib &self, int id)
{
    return self.material_ids_.count(id) > 0;
}

// One cross-section region per pin of every macroplane, serving that pin's
// cells in all the planes of the macroplane.
void XSMeshHomogenized__ctor(XSMeshHomogenized &self, const CoreMesh &mesh)
{
    self.flux_     = nullptr;
    self.state_    = 0;
    self.eubounds_ = mesh.mat_lib().g_bounds();
    self.ng_       = self.eubounds_.size();
    int n = 0;
    for (const auto p : mesh.macroplanes()) {
        n += p.plane->n_pin();
    }
    self.allocate_xs(n, self.ng_);
    self.n_reg_expanded_ = 0;
    int ixs              = 0;
    for (const auto &mplane : mesh.macroplanes()) {
        VecI cells;
        for (unsigned ipin = 0; ipin < mplane.size(); ++ipin) {
            Position pos = mesh.pin_position(ipin);
            for (int iz = mplane.iz_min; iz <= mplane.iz_max; ++iz) {
                pos.z = iz;
                cells.push_back(mesh.coarse_cell(pos));
            }
            self.regions_.emplace_back(cells, &self.xstr_(ixs, 0), &self.xsnf_(ixs, 0), &self.xsch_(ixs, 0), &self.xsf_(ixs, 0),
                                       &self.xsrm_(ixs, 0), ScatteringMatrix());
            self.n_reg_expanded_ += cells.size();
            cells.clear();
            ixs++;
        }
    }
    ixs = 0;
    for (const auto &mplane : mesh.macroplanes()) {
        for (const auto &pin : mplane) {
            self.homogenize_region(ixs, *pin, self.regions_[ixs]);
            ixs++;
        }
    }
}
}
