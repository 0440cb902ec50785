#include "core/core_mesh.hpp"
#include "sweepers/moc/ray.hpp"
#include "sweepers/moc/ray_data.hpp"
#include "util/error.hpp"
#include "util/rational_approximation.hpp"
#include "util/validate_input.hpp"
#include "util/string_utils.hpp"
#include "pugixml.hpp"
#include "common.hpp"
#include <algorithm>
using namespace mocc::moc;

namespace ref {
void RayData__ctor(RayData &self, const pugi::xml_node &input, const AngularQuadrature &ang_quad, const CoreMesh &mesh)
{
    self.ang_quad_ = ang_quad;
    self.modularization_method_ = Modularization::RATIONAL;
    validate_input(input, {"modularity", "spacing", "volume_correction", "modularization"});
    if (input.empty()) {
        throw EXCEPT("No input privided for ray spacing.");
    }
    real_t opt_spacing = input.attribute("spacing").as_float(-1.0);
    if (opt_spacing <= 0.0) {
        throw EXCEPT("Failed to read valid ray spacing.");
    }
    self.correction_type_ = VolumeCorrection::FLAT;
    if (!input.attribute("volume_correction").empty()) {
        std::string type = input.attribute("volume_correction").value();
        sanitize(type);
        if (type == "flat") {
            self.correction_type_ = VolumeCorrection::FLAT;
        } else if (type == "angle") {
            self.correction_type_ = VolumeCorrection::ANGLE;
        } else if (type == "none") {
            self.correction_type_ = VolumeCorrection::NONE;
        } else {
            throw EXCEPT("Unrecognized volume correction option in <rays>");
        }
    }
    bool core_modular = true;
    if (!input.attribute("modularity").empty()) {
        std::string in_str = input.attribute("modularity").value();
        sanitize(in_str);
        if (in_str == "pin") {
            core_modular = false;
            if (!mesh.is_pin_modular()) {
                throw EXCEPT(
                    "Core Mesh does not support pin modular ray "
                    "tracing.");
            }
        } else if (in_str == "core") {
            core_modular = true;
        } else {
            throw EXCEPT("Unrecognized modularity option.");
        }
    }
    if (!input.attribute("modularization").empty()) {
        std::string in_str = input.attribute("modularization").value();
        sanitize(in_str);
        if (in_str == "trig") {
            self.modularization_method_ = Modularization::TRIG;
        } else if (in_str == "rational_fraction") {
            self.modularization_method_ = Modularization::RATIONAL;
        } else {
            throw EXCEPT("Unrecognized modularizaion method speicified.");
        }
    }
    self.n_planes_ = mesh.n_unique_planes();
    real_t hx = mesh.hx_core();
    real_t hy = mesh.hy_core();
    real_t hx_mod =
        core_modular ? mesh.hx_core() : (*mesh.begin())->mesh().pitch_x();
    real_t hy_mod =
        core_modular ? mesh.hy_core() : (*mesh.begin())->mesh().pitch_y();
    int iang = 0;
    for (auto ang_it = self.ang_quad_.octant(1); ang_it != self.ang_quad_.octant(2);
         ++ang_it) {
        Angle ang = *ang_it;
        auto N = self.modularize_angle(ang, hx_mod, hy_mod, opt_spacing);
        int Nx = N.first;
        int Ny = N.second;
        if (!core_modular) {
            Nx *= mesh.nx();
            Ny *= mesh.ny();
        }
        self.Nx_.push_back(Nx);
        self.Ny_.push_back(Ny);
        self.Nrays_.push_back(Nx + Ny);
        real_t new_alpha = std::atan(hy * Nx / (hx * Ny));
        ang.modify_alpha(new_alpha);
        self.ang_quad_.modify_angle(iang, ang);
        real_t space = std::cos(ang_it->alpha) * hy / Ny;
        self.spacing_.push_back(space);
        iang++;
    }
    self.ang_quad_.update_weights();
    for (iang = 0; iang < self.ang_quad_.ndir_oct() * 3; iang++) {
        self.Nx_.push_back(self.Nx_[iang]);
        self.Ny_.push_back(self.Ny_[iang]);
        self.Nrays_.push_back(self.Nrays_[iang]);
        self.spacing_.push_back(self.spacing_[iang]);
    }
    Box core_box = Box(Point2(0.0, 0.0), Point2(hx, hy));
    self.max_seg_     = 0;
    for (unsigned iplane = 0; iplane < self.n_planes_; iplane++) {
        int iang = 0;
        std::vector<std::vector<Ray>> angle_rays;
        int nreg_plane = mesh.unique_plane(iplane).n_reg();
        VecI nrayfsr(nreg_plane, 0);
        for (auto ang = self.ang_quad_.octant(1); ang != self.ang_quad_.octant(3);
             ++ang) {
            int Nx  = self.Nx_[iang];
            int Ny  = self.Ny_[iang];
            std::array<int, 2> bc;
            real_t space   = self.spacing_[iang];
            real_t space_x = std::abs(space / std::sin(ang->alpha));
            real_t space_y = std::abs(space / std::cos(ang->alpha));
            std::vector<Ray> rays;
            for (int iray = 0; iray < Ny; iray++) {
                Point2 p1;
                bc[0] = iray;
                if (ang->ox > 0.0) {
                    p1.x = 0.0;
                } else {
                    p1.x = hx;
                }
                p1.y      = (0.5 + iray) * space_y;
                Point2 p2 = core_box.intersect(p1, *ang);
                if (fp_equiv(p2.x, hx)) {
                    bc[1] = p2.y / space_y;
                } else if (fp_equiv(p2.y, hy)) {
                    bc[1] = p2.x / space_x + Ny;
                } else if (fp_equiv(p2.x, 0.0)) {
                    bc[1] = p2.y / space_y;
                } else {
                    throw EXCEPT(
                        "Something has gone horribly wrong in the "
                        "ray trace.");
                }
                rays.emplace_back(Ray(p1, p2, bc, iplane, mesh));
                self.max_seg_ = std::max(rays.back().nseg(), self.max_seg_);
            }
            for (int iray = 0; iray < Nx; iray++) {
                Point2 p1;
                p1.x      = (0.5 + iray) * space_x;
                p1.y      = 0.0;
                Point2 p2 = core_box.intersect(p1, *ang);
                bc[0]     = iray + Ny;
                if (fp_equiv(p2.x, hx)) {
                    bc[1] = p2.y / space_y;
                } else if (fp_equiv(p2.y, hy)) {
                    bc[1] = p2.x / space_x + Ny;
                } else if (fp_equiv(p2.x, 0.0)) {
                    bc[1] = p2.y / space_y;
                } else {
                    throw EXCEPT(
                        "Something has gone horribly wrong in the "
                        "ray trace.");
                }
                rays.emplace_back(Ray(p1, p2, bc, iplane, mesh));
                self.max_seg_ = std::max(rays.back().nseg(), self.max_seg_);
            }
            for (auto &r : rays) {
                for (auto &i : r.seg_index()) {
                    nrayfsr[i]++;
                }
            }
            if (std::any_of(nrayfsr.begin(), nrayfsr.end(),
                            [](int i) { return i == 0; })) {
                Warn(
                    "No rays passed through at least one FSR. Try finer "
                    "ray spacing or larger regions.");
            }
            angle_rays.push_back(std::move(rays));
            ++iang;
        } 
        self.rays_.push_back(std::move(angle_rays));
    } 
    self.correct_volume(mesh);
}

void RayData__correct_volume(RayData &self, const CoreMesh &mesh)
{
    switch (self.correction_type_) {
    case VolumeCorrection::FLAT:
        for (size_t iplane = 0; iplane < self.n_planes_; iplane++) {
            real_t flat_corr_max = 0.0;
            int max_ireg         = 0;
            int max_iang         = 0;
            real_t flat_corr_rms = 0.0;
            const VecF &true_vol = mesh.unique_plane(iplane).areas();
            int iang             = 0;
            for (auto ang = self.ang_quad_.octant(1); ang != self.ang_quad_.octant(3);
                 ++ang) {
                VecF fsr_vol(mesh.unique_plane(iplane).n_reg(), 0.0);
                VecF flat_cf(mesh.unique_plane(iplane).n_reg(), 0.0);
                auto &rays   = self.rays_[iplane][iang];
                real_t space = self.spacing_[iang];
                for (const auto &ray : rays) {
                    for (int iseg = 0; iseg < ray.nseg(); iseg++) {
                        size_t ireg = ray.seg_index(iseg);
                        fsr_vol[ireg] += ray.seg_len(iseg) * space;
                    }
                }
                for (size_t ireg = 0; ireg < mesh.unique_plane(iplane).n_reg();
                     ireg++) {
                    flat_cf[ireg] = true_vol[ireg] / fsr_vol[ireg];
                    if (flat_corr_max < std::abs(flat_cf[ireg] - 1.0)) {
                        flat_corr_max = std::abs(flat_cf[ireg] - 1.0);
                        max_ireg      = ireg;
                        max_iang      = iang;
                    }
                    flat_corr_rms +=
                        (flat_cf[ireg] - 1.0) * (flat_cf[ireg] - 1.0);
                }
                for (auto &ray : rays) {
                    for (int iseg = 0; iseg < ray.nseg(); iseg++) {
                        int ireg          = ray.seg_index(iseg);
                        ray.seg_len(iseg) = ray.seg_len(iseg) * flat_cf[ireg];
                    }
                }
                iang++;
            } 
            flat_corr_rms =
                std::sqrt(flat_corr_rms / (mesh.unique_plane(iplane).n_reg() *
                                           (self.ang_quad_.ndir() / 4)));
        } 
        break;
    case VolumeCorrection::ANGLE:
        for (size_t iplane = 0; iplane < self.n_planes_; iplane++) {
            real_t flat_corr_max = 0.0;
            real_t flat_corr_rms = 0.0;
            int max_ireg         = 0;
            const VecF &true_vol = mesh.unique_plane(iplane).areas();
            VecF fsr_vol(mesh.unique_plane(iplane).n_reg(), 0.0);
            int iang = 0;
            for (auto ang = self.ang_quad_.octant(1); ang != self.ang_quad_.octant(3);
                 ++ang) {
                std::vector<Ray> &rays = self.rays_[iplane][iang];
                real_t space           = self.spacing_[iang];
                real_t wgt             = ang->weight * 0.5;
                for (auto &ray : rays) {
                    for (int iseg = 0; iseg < ray.nseg(); iseg++) {
                        int ireg = ray.seg_index(iseg);
                        fsr_vol[ireg] += ray.seg_len(iseg) * space * wgt;
                    }
                }
                ++iang;
            }
            for (int ireg = 0; ireg < (int)mesh.unique_plane(iplane).n_reg();
                 ireg++) {
                fsr_vol[ireg] = true_vol[ireg] / fsr_vol[ireg];
                if (flat_corr_max < std::abs(fsr_vol[ireg] - 1.0)) {
                    flat_corr_max = std::abs(fsr_vol[ireg] - 1.0);
                    max_ireg      = ireg;
                }
                flat_corr_rms += (fsr_vol[ireg] - 1.0) * (fsr_vol[ireg] - 1.0);
            }
            iang = 0;
            for (auto ang = self.ang_quad_.octant(1); ang != self.ang_quad_.octant(3);
                 ++ang) {
                std::vector<Ray> &rays = self.rays_[iplane][iang];
                for (auto &ray : rays) {
                    for (int iseg = 0; iseg < ray.nseg(); iseg++) {
                        int ireg          = ray.seg_index(iseg);
                        ray.seg_len(iseg) = ray.seg_len(iseg) * fsr_vol[ireg];
                    }
                }
                ++iang;
            } 
            flat_corr_rms =
                sqrt(flat_corr_rms / (int)mesh.unique_plane(iplane).n_reg());
        } 
        break;
    case VolumeCorrection::NONE:
        break;
    }
}

std::pair<int, int> RayData__modularize_angle(const RayData &self, Angle ang, real_t hx, real_t hy, real_t nominal_spacing)
{
    int Nx = 0;
    int Ny = 0;
    switch (self.modularization_method_) {
    case Modularization::RATIONAL: {
        real_t m = (ang.alpha < PI / 4.0) ? std::tan(ang.alpha)
                                          : std::tan(PI / 2.0 - ang.alpha);
        auto Nxy     = rational_approximation(m, 0.002, 0);
        Nx           = Nxy.first;
        Ny           = Nxy.second;
        real_t alpha = std::atan((Nx * hy) / (Ny * hx));
        int scale =
            std::ceil((hx / Nx * std::abs(std::sin(alpha))) / nominal_spacing);
        Nx *= scale;
        Ny *= scale;
        if (ang.alpha > PI / 4.0) {
            std::swap(Nx, Ny);
        }
    } break;
    case Modularization::TRIG:
    default:
        Nx = ceil(hx / nominal_spacing * std::abs(std::sin(ang.alpha)));
        Ny = ceil(hy / nominal_spacing * std::abs(std::cos(ang.alpha)));
        Nx += Nx % 2;
        Ny += Ny % 2;
        break;
    }
    return std::pair<int, int>(Nx, Ny);
}

void Ray__ctor(Ray &self, Point2 p1, Point2 p2, std::array<int, 2> bc, int iplane, const CoreMesh &mesh)
{
    self.bc_ = bc;
    self.p1_ = p1;
    self.p2_ = p2;
    std::vector<Point2> ps;
    ps.push_back(p1);
    ps.push_back(p2);
    mesh.trace(ps);
    std::vector<Point2> cps = ps;
    VecI cm_nseg;
    auto p_prev = cps.front();
    for (auto pi = ps.begin() + 1; pi != ps.end(); ++pi) {
        auto pin_p = Midpoint(*pi, p_prev);
        int first_reg          = 0;
        const PinMeshTuple pmt = mesh.get_pinmesh(pin_p, iplane, first_reg);
        int nseg = pmt.pm->trace(p_prev - pin_p, *pi - pin_p, first_reg,
                                 self.seg_len_, self.seg_index_);
        if (nseg > 255) {
            throw EXCEPT("too many");
        }
        cm_nseg.push_back(nseg);
        p_prev = *pi;
    }
    size_t ns = 0;
    Surface s[2];
    int octant = (p2.x > p1.x) ? 1 : 2;
    std::vector<Surface> surfs_fw;
    VecI nsegs_fw;
    {
        auto pp = cps.cbegin();
        auto p  = cps.cbegin() + 1;
        self.cm_cell_fw_ = mesh.coarse_boundary_cell(*pp, octant);
        ns          = mesh.coarse_norm_point(*pp, octant, s);
        self.cm_surf_fw_ = mesh.coarse_surf(self.cm_cell_fw_, s[0]);
        for (auto nseg : cm_nseg) {
            ns = mesh.coarse_norm_point(*p, octant, s);
            for (size_t i = 0; i < ns; i++) {
                surfs_fw.push_back(s[i]);
            }
            nsegs_fw.push_back(nseg);
            if (ns > 1) {
                nsegs_fw.push_back(0);
            }
            ++pp;
            ++p;
        }
    }
    std::reverse(cm_nseg.begin(), cm_nseg.end());
    octant = (octant == 1) ? 3 : 4;
    std::vector<Surface> surfs_bw;
    VecI nsegs_bw;
    {
        auto pp     = cps.crbegin();
        auto p      = cps.crbegin() + 1;
        self.cm_cell_bw_ = mesh.coarse_boundary_cell(*pp, octant);
        ns          = mesh.coarse_norm_point(*pp, octant, s);
        self.cm_surf_bw_ = mesh.coarse_surf(self.cm_cell_bw_, s[0]);
        for (auto nseg : cm_nseg) {
            ns = mesh.coarse_norm_point(*p, octant, s);
            for (size_t i = 0; i < ns; i++) {
                surfs_bw.push_back(s[i]);
            }
            nsegs_bw.push_back(nseg);
            if (ns > 1) {
                nsegs_bw.push_back(0);
            }
            ++pp;
            ++p;
        }
    }
    size_t stp = std::min(nsegs_fw.size(), nsegs_bw.size());
    for (size_t i = 0; i < stp; i++) {
        Ray::RayCoarseData rcd;
        rcd.fw      = surfs_fw[i];
        rcd.bw      = surfs_bw[i];
        rcd.nseg_fw = nsegs_fw[i];
        rcd.nseg_bw = nsegs_bw[i];
        self.cm_data_.push_back(rcd);
    }
    if (nsegs_fw.size() > nsegs_bw.size()) {
        Ray::RayCoarseData rcd;
        rcd.fw      = surfs_fw.back();
        rcd.bw      = Surface::INVALID;
        rcd.nseg_fw = 0;
        rcd.nseg_bw = 0;
        self.cm_data_.push_back(rcd);
    }
    if (nsegs_bw.size() > nsegs_fw.size()) {
        Ray::RayCoarseData rcd;
        rcd.fw      = Surface::INVALID;
        rcd.bw      = surfs_bw.back();
        rcd.nseg_fw = 0;
        rcd.nseg_bw = 0;
        self.cm_data_.push_back(rcd);
    }
    self.nseg_ = self.seg_len_.size();
}

std::pair<int, int> fn__rational_approximation(real_t target, real_t tolerance, int max_d)
{
    if( max_d == 0 ){
        max_d = std::numeric_limits<int>::max();
    }
    int a = 0;
    int b = 1;
    int c = 1;
    int d = 1;
    if(std::abs(real_t(a)/real_t(b) - target) < tolerance) {
        return std::pair<int, int>(a, b);
    }
    if(std::abs(real_t(c)/real_t(d) - target) < tolerance) {
        return std::pair<int, int>(c, d);
    }
    while ((b <= max_d) && (d <= max_d)) {
        real_t mediant = real_t(a + c) / real_t(b + d);
        if (std::abs(target - mediant) < tolerance) {
            if (b + d <= max_d) {
                return std::pair<int, int>(a + c, b + d);
            } else if (d > b) {
                return std::pair<int, int>(c, d);
            } else {
                return std::pair<int, int>(a, b);
            }
        } else if (target > mediant) {
            a = a+c;
            b = b+d;
        } else {
            c = a+c;
            d = b+d;
        }
    }
    if (b > max_d) {
        return std::pair<int, int>(c, d);
    }
    return std::pair<int, int>(a, b);
}


int Ray__nseg(const Ray &self) { return self.nseg_; }
int Ray__ncseg(const Ray &self) { return self.cm_data_.size(); }
size_t Ray__cm_cell_fw(const Ray &self) { return self.cm_cell_fw_; }
size_t Ray__cm_cell_bw(const Ray &self) { return self.cm_cell_bw_; }
size_t Ray__cm_surf_fw(const Ray &self) { return self.cm_surf_fw_; }
size_t Ray__cm_surf_bw(const Ray &self) { return self.cm_surf_bw_; }
size_t Ray__seg_index(const Ray &self, size_t iseg) { return self.seg_index_[iseg]; }
int Ray__bc(const Ray &self, int dir) { return self.bc_[dir]; }
bool Ray__less(const Ray &self, const Ray &other) { return self.nseg_ < other.nseg_; }
bool Ray__greater(const Ray &self, const Ray &other) { return other.nseg_ < self.nseg_; }
size_t RayData__n_rays(const RayData &self, size_t iang) { return self.Nrays_[iang]; }
size_t RayData__nx(const RayData &self, size_t iang) { return self.Nx_[iang]; }
size_t RayData__ny(const RayData &self, size_t iang) { return self.Ny_[iang]; }
real_t RayData__spacing(const RayData &self, int iang) { return self.spacing_[iang]; }
int RayData__max_segments(const RayData &self) { return self.max_seg_; }
}
