#include "sweepers/cmdo/moc_sweeper_2d3d.hpp"
#include "sweepers/cmdo/plane_sweeper_2d3d.hpp"
#include "sweepers/cmdo/sn_sweeper_cdd.hpp"
#include "sweepers/mc/particle_pusher.hpp"
#include "solvers/eigen_solver.hpp"
#include "solvers/fixed_source_solver.hpp"
#include "solvers/monte_carlo_eigenvalue_solver.hpp"
#include "util/error.hpp"
#include "util/h5file.hpp"
#include "util/utils.hpp"
#include "input_proc.hpp"
#include "git_SHA1.hpp"
#include "common.hpp"
#include <iomanip>
#include <sstream>

using namespace mocc::cmdo;
using namespace mocc::moc;
using namespace mocc::mc;
using namespace mocc::sn;

extern SP_Solver_t solver;
extern std::unique_ptr<InputProcessor> input_proc;

namespace ref {
void SnSweeper__output(const SnSweeper &self, H5Node &node)
{
    auto dims = self.mesh_.dimensions();
    std::reverse(dims.begin(), dims.end());
    node.create_group("flux");
    ArrayB2 flux = self.get_pin_flux();
    Normalize(flux.begin(), flux.end());
    for (int ig = 0; ig < self.n_group_; ig++) {
        std::stringstream setname;
        setname << "flux/" << std::setfill('0') << std::setw(3) << ig + 1;
        ArrayB1 flux_1g = flux(blitz::Range::all(), ig);
        node.write(setname.str(), flux_1g.begin(), flux_1g.end(), dims);
    }
    node.write("pin_powers", self.pin_powers());
    node.write("pin_powers_2d", self.pin_powers_2d());
    self.ang_quad_.output(node);
    self.xs_mesh_->output(node);
    return;
}

void MoCSweeper__output(const MoCSweeper &self, H5Node &node)
{
    VecI dims = self.mesh_.dimensions();
    std::reverse(dims.begin(), dims.end());
    node.create_group("flux");
    ArrayB2 flux = self.get_pin_flux();
    Normalize(flux.begin(), flux.end());
    if (self.dump_fsr_flux_) {
        VecI dims = {1, (int)(self.mesh_.n_reg(MeshTreatment::PLANE))};
        std::reverse(dims.begin(), dims.end());
        node.create_group("fsr_flux");
        for (int ig = 0; ig < self.n_group_; ig++) {
            std::stringstream setname;
            setname << "fsr_flux/" << std::setfill('0') << std::setw(3)
                    << ig + 1;
            ArrayB1 flux_1g = self.flux_(blitz::Range::all(), ig);
            node.write(setname.str(), flux_1g.begin(), flux_1g.end(), dims);
        }
    }
    for (int ig = 0; ig < self.n_group_; ig++) {
        std::stringstream setname;
        setname << "flux/" << std::setfill('0') << std::setw(3) << ig + 1;
        ArrayB1 flux_1g = flux(blitz::Range::all(), ig);
        node.write(setname.str(), flux_1g.begin(), flux_1g.end(), dims);
    }
    node.write("pin_powers", self.pin_powers());
    self.ang_quad_.output(node);
    return;
}

void MoCSweeper_2D3D__output(const MoCSweeper_2D3D &self, H5Node &node)
{
    self.MoCSweeper::output(node);
    if (self.internal_coupling_) {
        self.corrections_->output(node);
        self.sn_xs_mesh_->update();
        self.sn_xs_mesh_->output(node);
    }
    auto residual_group = node.create_group("correction_residual");
    for (int ig = 0; ig < self.n_group_; ig++) {
        std::stringstream g_str;
        g_str << ig + 1;
        auto g = residual_group.create_group(g_str.str());
        VecF ax;
        VecF ay;
        VecF b;
        for (auto data : self.correction_residuals_[ig]) {
            ax.push_back(data[0]);
            ay.push_back(data[1]);
            b.push_back(data[2]);
        }
        g.write("alpha_x", ax);
        g.write("alpha_y", ay);
        g.write("beta", b);
    }
    return;
}

void PlaneSweeper_2D3D__output(const PlaneSweeper_2D3D &self, H5Node &file)
{
    {
        auto g = file.create_group("/Sn");
        self.sn_sweeper_->output(g);
    }
    try {
        file.create_link("/Sn/xsmesh", "/xsmesh");
    } catch (...) {
        throw EXCEPT("");
    }
    try {
        file.create_link("/Sn/ang_quad", "/ang_quad");
    } catch (...) {
        throw EXCEPT("");
    }
    {
        auto g = file.create_group("/MoC");
        self.moc_sweeper_.output(g);
    }
    VecI dims_moc;
    dims_moc.push_back(self.mesh_.macroplanes().size());
    dims_moc.push_back(self.mesh_.ny());
    dims_moc.push_back(self.mesh_.nx());
    VecI dims;
    dims.push_back(self.mesh_.nz());
    dims.push_back(self.mesh_.ny());
    dims.push_back(self.mesh_.nx());
    file.create_group("/SnResid");
    for (int g = 0; g < self.n_group_; g++) {
        std::stringstream setname;
        setname << "/SnResid/" << std::setfill('0') << std::setw(3) << g;
        VecI niter(1, self.sn_resid_norm_[g].size());
        file.write(setname.str(), self.sn_resid_norm_[g], niter);
    }
    {
        auto flux = self.prev_moc_flux_.copy();
        Normalize(flux.begin(), flux.end());
        auto h5g = file.create_group("moc_flux");
        for (const auto &ig : self.groups_) {
            std::stringstream setname;
            setname << std::setfill('0') << std::setw(3) << ig + 1;
            h5g.write(setname.str(), flux(ig, blitz::Range::all()), dims_moc);
        }
    }
    {
        auto group = file.create_group("/transverse_leakage");
        for (int g = 0; g < self.n_group_; g++) {
            std::stringstream setname;
            setname << std::setfill('0') << std::setw(3) << g;
            const auto tl_slice = self.tl_((int)g, blitz::Range::all());
            group.write(setname.str(), tl_slice.begin(), tl_slice.end(),
                        dims_moc);
        }
    }
    if (self.dump_corrections_) {
        self.corrections_->output(file);
    }
}

void FixedSourceSolver__output(const FixedSourceSolver &self, H5Node &node)
{
    node.write("ng", (int)self.sweeper_->n_group());
    node.write("eubounds", self.sweeper_->xs_mesh().eubounds(), VecI(1, self.ng_));
    self.sweeper_->output(node);                  
    return;
}

void EigenSolver__output(const EigenSolver &self, H5Node &file)
{
    VecF k;
    VecF error_k;
    VecF error_psi;
    for (auto &c : self.convergence_) {
        k.push_back(c.k);
        error_k.push_back(c.error_k);
        error_psi.push_back(c.error_psi);
    }
    VecI dims(1, self.convergence_.size());
    {
        auto g = file.create_group("convergence");
        g.write("k", k, dims);
        g.write("error_k", error_k, dims);
        g.write("error_psi", error_psi, dims);
        g.write("iteration_time", self.iteration_times_);
        g.write("abscissae", self.iteration_times_);
    }
    self.fss_.output(file);
    if (self.cmfd_) {
        self.cmfd_->output(file);
    }
    return;
}

void MonteCarloEigenvalueSolver__output(const MonteCarloEigenvalueSolver &self, H5Node &node)
{
    auto dims = self.mesh_.dimensions();
    std::reverse(dims.begin(), dims.end());
    node.write("k_history_tl", self.k_history_tl_);
    node.write("k_history_col", self.k_history_col_);
    node.write("k_history_analog", self.k_history_analog_);
    node.write("h_history", self.h_history_);
    node.write("k_mean_history_tl", self.k_mean_history_tl_);
    node.write("k_mean_history_col", self.k_mean_history_col_);
    node.write("k_mean_history_analog", self.k_mean_history_analog_);
    node.write("k_stdev_history_tl", self.k_stdev_history_tl_);
    node.write("k_stdev_history_col", self.k_stdev_history_col_);
    node.write("k_stdev_history_analog", self.k_stdev_history_analog_);
    node.write("seed", self.seed_);
    self.pusher_.output(node);
    return;
}

void ParticlePusher__output(const ParticlePusher &self, H5Node &node)
{
    auto dims = self.mesh_.dimensions();
    std::reverse(dims.begin(), dims.end());
    node.write("ng", self.n_group_);
    node.write("eubounds", self.xs_mesh_.eubounds(), VecI(1, self.n_group_));
    {
        ArrayB2 flux_mg(self.xs_mesh_.n_group(), self.mesh_.n_pin());
        ArrayB2 stdev_mg(self.xs_mesh_.n_group(), self.mesh_.n_pin());
        auto g = node.create_group("flux");
        for (int ig = 0; ig < (int)self.scalar_flux_tally_.size(); ig++) {
            auto flux_result = self.scalar_flux_tally_[ig].get();
            int ipin         = 0;
            for (const auto &v : flux_result) {
                flux_mg(ig, ipin)  = v.first;
                stdev_mg(ig, ipin) = v.second;
                ipin++;
            }
        }
        for (int ig = 0; ig < (int)self.scalar_flux_tally_.size(); ig++) {
            std::stringstream path;
            path << std::setfill('0') << std::setw(3) << ig + 1;
            g.write(path.str(), flux_mg(ig, blitz::Range::all()), dims);
            path << "_stdev";
            g.write(path.str(), stdev_mg(ig, blitz::Range::all()), dims);
        }
    }
    {
        ArrayB2 flux_mg(self.xs_mesh_.n_group(), self.mesh_.n_reg(MeshTreatment::TRUE));
        ArrayB2 stdev_mg(self.xs_mesh_.n_group(), self.mesh_.n_reg(MeshTreatment::TRUE));
        auto g = node.create_group("fsr_flux");
        for (int ig = 0; ig < (int)self.fine_flux_tally_.size(); ig++) {
            auto flux_result = self.fine_flux_tally_[ig].get();
            int ipin         = 0;
            for (const auto &v : flux_result) {
                flux_mg(ig, ipin)  = v.first;
                stdev_mg(ig, ipin) = v.second;
                ipin++;
            }
        }
        for (int ig = 0; ig < (int)self.fine_flux_tally_.size(); ig++) {
            std::stringstream path;
            path << std::setfill('0') << std::setw(3) << ig + 1;
            g.write(path.str(), flux_mg(ig, blitz::Range::all()));
            path << "_stdev";
            g.write(path.str(), stdev_mg(ig, blitz::Range::all()));
        }
    }
    {
        VecF flux_mg(self.mesh_.n_reg(MeshTreatment::TRUE));
        VecF stdev_mg(self.mesh_.n_reg(MeshTreatment::TRUE));
        auto g = node.create_group("fsr_flux_col");
        for (int ig = 0; ig < (int)self.fine_flux_col_tally_.size(); ig++) {
            std::stringstream path;
            path << std::setfill('0') << std::setw(3) << ig + 1;
            auto flux_result = self.fine_flux_col_tally_[ig].get();
            int ireg         = 0;
            for (const auto &v : flux_result) {
                flux_mg[ireg]  = v.first;
                stdev_mg[ireg] = v.second;
                ireg++;
            }
            g.write(path.str(), flux_mg);
            path << "_stdev";
            g.write(path.str(), stdev_mg);
        }
    }
    {
        VecF pin_power;
        VecF stdev;
        pin_power.reserve(self.mesh_.n_pin());
        stdev.reserve(self.mesh_.n_pin());
        auto result = self.pin_power_tally_.get();
        for (const auto &v : result) {
            pin_power.push_back(v.first);
            stdev.push_back(v.second);
        }
        Normalize(pin_power.begin(), pin_power.end());
        node.write("pin_power", pin_power, dims);
        node.write("pin_power_stdev", stdev, dims);
    }
    return;
}

void fn__generate_output()
{
    std::string out_name = input_proc->case_name();
    out_name.append(".h5");
    H5Node outfile(out_name, H5Access::WRITE);
    solver->output(outfile);
    std::stringstream filestream;
    input_proc->document().save(filestream);
    outfile.write("input_file", filestream.str());
    outfile.write("git_sha1", std::string(g_GIT_SHA1));
}


} // namespace ref
