#include "core/xs_mesh_homogenized.hpp"
#include "common.hpp"

namespace ref {
// Volume weighting: rate of each region = area x cross section; the emission
// spectrum is weighted by area x total nu-fission.
void homogenize_region(const XSMeshHomogenized &self, int i, const Pin &pin, XSMeshRegion &xsr)
{
    int ng = self.ng_;
    VecF tr(ng, 0.0), nf(ng, 0.0), f(ng, 0.0), ch(ng, 0.0);
    std::vector<VecF> sc(ng, VecF(ng, 0.0));
    for (int g = 0; g < ng; g++) {
        real_t weight = 0.0;
        int ireg      = 0;
        int im        = 0;
        for (auto id : pin.mat_ids()) {
            const auto &mat = self.mesh_.mat_lib().get_material_by_id(id);
            real_t total    = 0.0;
            for (int gg = 0; gg < ng; gg++) {
                total += mat.xsnf(gg);
            }
            for (int j = 0; j < (int)pin.mesh().n_fsrs(im); j++) {
                real_t a = pin.mesh().areas()[ireg];
                weight += a * total;
                tr[g] += a * mat.xstr(g);
                nf[g] += a * mat.xsnf(g);
                f[g] += a * mat.xsf(g);
                ch[g] += a * total * mat.xsch(g);
                const ScatteringRow &row = mat.xssc().to(g);
                for (int from = row.min_g; from <= row.max_g; from++) {
                    sc[g][from] += row.from[from - row.min_g] * a;
                }
                ireg++;
            }
            im++;
        }
        tr[g] /= pin.area();
        nf[g] /= pin.area();
        f[g] /= pin.area();
        if (weight > 0.0) {
            ch[g] /= weight;
        }
        for (int from = 0; from < (int)sc[g].size(); from++) {
            sc[g][from] /= pin.area();
        }
    }
    xsr.update(tr, nf, ch, f, ScatteringMatrix(sc));
}

// Flux weighting: rate of each region = area x flux x cross section; transfers
// are weighted by the flux of the group they come from, the emission spectrum
// by the fission production of the region.
void homogenize_region_flux(const XSMeshHomogenized &self, int i, int first_reg, const Pin &pin, XSMeshRegion &xsr)
{
    int ng = self.ng_;
    VecF tr(ng, 0.0), nf(ng, 0.0), f(ng, 0.0), ch(ng, 0.0);
    std::vector<VecF> sc(ng, VecF(ng, 0.0));
    const ArrayB2 &flux = *self.flux_;
    VecF fs(pin.mesh().n_reg(), 0.0);
    for (int g = 0; g < ng; g++) {
        int k  = 0;
        int im = 0;
        for (auto id : pin.mat_ids()) {
            const auto &mat = self.mesh_.mat_lib().get_material_by_id(id);
            for (int j = 0; j < (int)pin.mesh().n_fsrs(im); j++) {
                fs[k] += mat.xsnf(g) * flux(first_reg + k, g) * pin.mesh().areas()[k];
                k++;
            }
            im++;
        }
    }
    real_t production = 0.0;
    for (auto v : fs) {
        production += v;
    }
    for (int g = 0; g < ng; g++) {
        real_t fv = 0.0;
        VecF fvg(ng, 0.0);
        int k  = 0;
        int im = 0;
        for (auto id : pin.mat_ids()) {
            const auto &mat          = self.mesh_.mat_lib().get_material_by_id(id);
            const ScatteringRow &row = mat.xssc().to(g);
            for (int j = 0; j < (int)pin.mesh().n_fsrs(im); j++) {
                real_t a = pin.mesh().areas()[k];
                real_t p = flux(first_reg + k, g);
                fv += a * p;
                tr[g] += a * p * mat.xstr(g);
                nf[g] += a * p * mat.xsnf(g);
                f[g] += a * p * mat.xsf(g);
                ch[g] += fs[k] * mat.xsch(g);
                for (int from = 0; from < ng; from++) {
                    fvg[from] += flux(first_reg + k, from) * a;
                    if (from >= row.min_g && from <= row.max_g) {
                        sc[g][from] += row.from[from - row.min_g] * a * flux(first_reg + k, from);
                    }
                }
                k++;
            }
            im++;
        }
        for (int from = 0; from < ng; from++) {
            if (sc[g][from] != 0.0) {
                sc[g][from] /= fvg[from];
            }
        }
        tr[g] /= fv;
        nf[g] /= fv;
        f[g] /= fv;
        if (production > 0.0) {
            ch[g] /= production;
        }
    }
    xsr.update(tr, nf, ch, f, ScatteringMatrix(sc));
}

// Every pin of every macroplane is homogenised with its own regions' flux, and
// the change is announced.
void update(XSMeshHomogenized &self)
{
    if (!self.flux_) {
        return;
    }
    int first = 0;
    int k     = 0;
    for (const auto &mp : self.mesh_.macroplanes()) {
        for (const auto &pin : mp) {
            self.homogenize_region_flux(k, first, *pin, self.regions_[k]);
            first += pin->n_reg();
            k++;
        }
    }
    self.state_++;
}
}
