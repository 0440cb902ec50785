// What each option of the input stands for: the default where it is absent, the
// value given where it is present, and what is refused.
#include <algorithm>
#include <omp.h>
#include "pugixml.hpp"
#include "core/cmfd.hpp"
#include "core/parallel_environment.hpp"
#include "core/transport_sweeper.hpp"
#include "solvers/eigen_solver.hpp"
#include "solvers/fixed_source_solver.hpp"
#include "solvers/monte_carlo_eigenvalue_solver.hpp"
#include "solvers/solver_factory.hpp"
#include "sweepers/cmdo/moc_sweeper_2d3d.hpp"
#include "sweepers/cmdo/plane_sweeper_2d3d.hpp"
#include "sweepers/cmdo/sn_sweeper_cdd.hpp"
#include "sweepers/cmdo/sn_sweeper_factory_cdd.hpp"
#include "sweepers/moc/moc_sweeper.hpp"
#include "sweepers/sn/sn_sweeper.hpp"
#include "sweepers/sn/sn_sweeper_dd.hpp"
#include "sweepers/sn_sweeper_factory.hpp"
#include "sweepers/transport_sweeper_factory.hpp"
#include "util/error.hpp"
#include "util/string_utils.hpp"
#include "common.hpp"

namespace ref {
using namespace mocc::sn;
using namespace mocc::cmdo;

void CMFD__ctor(CMFD &self, const pugi::xml_node &input, const CoreMesh *mesh, SP_XSMeshHomogenized_t xsmesh)
{
    self.is_enabled_      = true;
    self.k_tol_           = 1.0e-6;
    self.psi_tol_         = 1.0e-5;
    self.resid_reduction_ = 0.001;
    self.max_iter_        = 100;
    self.zero_fixup_      = false;
    self.dump_current_    = false;
    if (input.empty()) {
        return;
    }
    if (!input.attribute("k_tol").empty()) {
        self.k_tol_ = input.attribute("k_tol").as_float(-1.0);
        if (self.k_tol_ <= 0.0) {
            throw EXCEPT("");
        }
    }
    if (!input.attribute("psi_tol").empty()) {
        self.psi_tol_ = input.attribute("psi_tol").as_float(-1.0);
        if (self.psi_tol_ <= 0.0) {
            throw EXCEPT("");
        }
    }
    if (!input.attribute("residual_reduction").empty()) {
        self.resid_reduction_ = input.attribute("residual_reduction").as_float(-1.0);
        if (self.resid_reduction_ <= 0.0) {
            throw EXCEPT("");
        }
    }
    if (!input.attribute("max_iter").empty()) {
        self.max_iter_ = input.attribute("max_iter").as_int(-1);
        if (self.max_iter_ < 0) {
            throw EXCEPT("");
        }
    }
    if (!input.attribute("negative_fixup").empty()) {
        self.zero_fixup_ = input.attribute("negative_fixup").as_bool(false);
    }
    if (!input.attribute("enabled").empty()) {
        self.is_enabled_ = input.attribute("enabled").as_bool(true);
    }
    if (!input.attribute("dump_current").empty()) {
        self.dump_current_ = input.attribute("dump_current").as_bool(false);
    }
}

void ParallelEnvironment__ctor(ParallelEnvironment &self, const pugi::xml_node &input)
{
    self.num_threads_ = 1;
    if (!input.empty()) {
        self.num_threads_ = input.attribute("num_threads").as_int(0);
        if (self.num_threads_ < 1) {
            throw EXCEPT("");
        }
        if (self.num_threads_ > omp_get_num_procs()) {
            Warn("");
        }
        omp_set_num_threads(self.num_threads_);
    }
}

void TransportSweeper__full(TransportSweeper &self, const pugi::xml_node &input, const CoreMesh &mesh,
                            MeshTreatment treatment)
{
    self.do_incoming_update_ = input.attribute("update_incoming").as_bool(true);
}

void TransportSweeper__bare(TransportSweeper &self, const pugi::xml_node &input)
{
    self.do_incoming_update_ = input.attribute("update_incoming").as_bool(true);
}

void EigenSolver__ctor(EigenSolver &self, const pugi::xml_node &input, const CoreMesh &mesh)
{
    new (&self.fss_) FixedSourceSolver(input, mesh);
    if (input.empty()) {
        throw EXCEPT("");
    }
    self.tolerance_k_ = input.attribute("k_tol").as_float(-1.0);
    if (self.tolerance_k_ <= 0.0) {
        throw EXCEPT("");
    }
    self.tolerance_psi_ = input.attribute("psi_tol").as_float(-1.0);
    if (self.tolerance_psi_ <= 0.0) {
        throw EXCEPT("");
    }
    int max = input.attribute("max_iter").as_int(-1);
    if (max < 0) {
        throw EXCEPT("");
    }
    self.max_iterations_ = max;
    self.min_iterations_ = 0;
    if (!input.attribute("min_iter").empty()) {
        int min = input.attribute("min_iter").as_int(-1);
        if (min < 0 || min > max) {
            throw EXCEPT("");
        }
        self.min_iterations_ = min;
    }
    if (!input.child("dump_iterations").empty()) {
        self.dump_iterations_ = explode_string<int>(input.child("dump_iterations").child_value());
        std::sort(self.dump_iterations_.begin(), self.dump_iterations_.end());
    }
    self.n_fissile_regions_ = 0;
    for (const auto &xsr : self.fss_.sweeper()->xs_mesh()) {
        bool has_fission = false;
        for (int ig = 0; ig < xsr.n_group(); ig++) {
            if (xsr.xsmacnf(ig) > 0.0) {
                has_fission = true;
                break;
            }
        }
        if (has_fission) {
            self.n_fissile_regions_ += xsr.reg().size();
        }
    }
    if (self.n_fissile_regions_ == 0) {
        throw EXCEPT("");
    }
    if (input.attribute("cmfd").as_bool(false)) {
        self.cmfd_.reset(new CMFD(input.child("cmfd"), &mesh, self.fss_.sweeper()->get_homogenized_xsmesh()));
        self.fss_.sweeper()->set_coarse_data(self.cmfd_->get_data());
    }
}

void FixedSourceSolver__ctor(FixedSourceSolver &self, const pugi::xml_node &input, const CoreMesh &mesh)
{
    self.sweeper_      = UP_Sweeper_t(TransportSweeperFactory(input, mesh));
    self.source_       = self.sweeper_->create_source(input.child("source"));
    self.fixed_source_ = false;
    self.max_iter_     = 0;
    self.flux_tol_     = 0.0;
    std::string type   = input.attribute("type").value();
    if (type == "fixed_source") {
        self.fixed_source_ = true;
        int max_iter       = input.attribute("max_iter").as_int(-1);
        if (max_iter <= 0) {
            throw EXCEPT("");
        }
        self.max_iter_ = max_iter;
        self.flux_tol_ = input.attribute("flux_tol").as_float(-1.0);
        if (self.flux_tol_ <= 0.0) {
            throw EXCEPT("");
        }
        if (input.child("source").empty()) {
            throw EXCEPT("");
        }
        self.source_->add_external(input.child("source"));
    }
    self.sweeper_->assign_source(self.source_.get());
}

void MonteCarloEigenvalueSolver__ctor(mc::MonteCarloEigenvalueSolver &self, const pugi::xml_node &input,
                                      const CoreMesh &mesh)
{
    self.n_cycles_            = input.attribute("cycles").as_int(-1);
    self.n_inactive_cycles_   = input.attribute("inactive_cycles").as_int(-1);
    self.particles_per_cycle_ = input.attribute("particles_per_cycle").as_int(-1);
    self.seed_                = input.attribute("seed").as_int(1);
    self.cycle_               = 0;
    self.dump_sites_          = false;
    if (input.empty()) {
        throw EXCEPT("");
    }
    if (self.seed_ % 2 == 0) {
        throw EXCEPT("");
    }
    if (self.n_cycles_ < 0) {
        throw EXCEPT("");
    }
    if (self.n_cycles_ == 0) {
        Warn("");
    }
    if (self.n_inactive_cycles_ < 0) {
        throw EXCEPT("");
    }
    if (self.n_inactive_cycles_ == 0) {
        Warn("");
    }
    if (self.particles_per_cycle_ < 0) {
        throw EXCEPT("");
    }
    if (self.particles_per_cycle_ == 0) {
        Warn("");
    }
    self.pusher_.set_seed(self.seed_);
}

SP_Solver_t fn__SolverFactory(const pugi::xml_node &input, const CoreMesh &mesh)
{
    if (input.empty()) {
        throw EXCEPT("");
    }
    SP_Solver_t solver;
    std::string type = input.attribute("type").value();
    if (type == "eigenvalue") {
        solver = std::make_shared<EigenSolver>(input, mesh);
    } else if (type == "fixed_source") {
        solver = std::make_shared<FixedSourceSolver>(input, mesh);
    } else if (type == "eigenvalue_mc") {
        solver = std::make_shared<mc::MonteCarloEigenvalueSolver>(input, mesh);
    } else {
        throw EXCEPT("");
    }
    return solver;
}

UP_Sweeper_t fn__TransportSweeperFactory(const pugi::xml_node &input, const CoreMesh &mesh)
{
    UP_Sweeper_t sweeper;
    std::string type = input.child("sweeper").attribute("type").value();
    if (type == "moc") {
        UP_Sweeper_t ts(new moc::MoCSweeper(input.child("sweeper"), mesh));
        sweeper = std::move(ts);
    } else if (type == "sn") {
        auto snts = SnSweeperFactory(input.child("sweeper"), mesh);
        sweeper   = std::move(snts);
    } else if (type == "2d3d") {
        UP_Sweeper_t ts(new cmdo::PlaneSweeper_2D3D(input.child("sweeper"), mesh));
        sweeper = std::move(ts);
    } else if (type == "moc_2d3d") {
        cmdo::MoCSweeper_2D3D *swp = new cmdo::MoCSweeper_2D3D(input.child("sweeper"), mesh);
        swp->set_self_coupling();
        sweeper.reset(swp);
    } else {
        throw EXCEPT("");
    }
    return sweeper;
}

void PlaneSweeper_2D3D__parse_options(PlaneSweeper_2D3D &self, const pugi::xml_node &input)
{
    self.expose_sn_              = false;
    self.do_snproject_           = false;
    self.do_mocproject_          = false;
    self.keep_sn_quad_           = false;
    self.do_tl_                  = true;
    self.n_inactive_moc_         = 0;
    self.moc_modulo_             = 1;
    self.relax_                  = 1.0;
    self.discrepant_flux_update_ = false;
    self.v_cycle_                = false;
    if (!input.attribute("expose_sn").empty()) {
        self.expose_sn_ = input.attribute("expose_sn").as_bool();
    }
    if (!input.attribute("sn_project").empty()) {
        self.do_snproject_ = input.attribute("sn_project").as_bool();
    }
    if (!input.attribute("moc_project").empty()) {
        self.do_mocproject_ = input.attribute("moc_project").as_bool();
    }
    if (!input.attribute("tl").empty()) {
        self.do_tl_ = input.attribute("tl").as_bool();
    }
    if (!input.attribute("inactive_moc").empty()) {
        self.n_inactive_moc_ = input.attribute("inactive_moc").as_int(-1);
        if (self.n_inactive_moc_ < 0) {
            throw EXCEPT("");
        }
    }
    if (!input.attribute("moc_modulo").empty()) {
        self.moc_modulo_ = input.attribute("moc_modulo").as_int();
        if (self.moc_modulo_ < 1) {
            throw EXCEPT("");
        }
    }
    if (!input.attribute("preserve_sn_quadrature").empty()) {
        self.keep_sn_quad_ = input.attribute("preserve_sn_quadrature").as_bool();
    }
    if (!input.attribute("relax").empty()) {
        self.relax_ = input.attribute("relax").as_double(1.0);
        if (self.relax_ <= 0.0) {
            throw EXCEPT("");
        }
    }
    if (!input.attribute("discrepant_flux_update").empty()) {
        self.discrepant_flux_update_ = input.attribute("discrepant_flux_update").as_bool();
        if (self.discrepant_flux_update_) {
            throw EXCEPT("");
        }
    }
    self.dump_corrections_ = input.attribute("dump_corrections").as_bool(false);
    if (!input.attribute("cycle").empty()) {
        std::string cycle = input.attribute("cycle").value();
        if (cycle == "v") {
            self.v_cycle_ = true;
        } else if ((cycle == "saw") || (cycle == "sawtooth")) {
            self.v_cycle_ = false;
        } else {
            throw EXCEPT("");
        }
    }
    if (self.expose_sn_ && !self.do_snproject_) {
        Warn("");
    }
    if (!self.do_tl_) {
        Warn("");
    }
}

UP_Source_t PlaneSweeper_2D3D__create_source(const PlaneSweeper_2D3D &self, const pugi::xml_node &input)
{
    std::string scattering = input.attribute("scattering").value();
    sanitize(scattering);
    if (!scattering.empty() && (scattering != "p0")) {
        throw EXCEPT("");
    }
    if (!input.attribute("file").empty()) {
        throw EXCEPT("");
    }
    return UP_Source_t(new Source_2D3D(self.moc_sweeper_, *self.sn_sweeper_));
}

void PlaneSweeper_2D3D__ctor(PlaneSweeper_2D3D &self, const pugi::xml_node &input, const CoreMesh &mesh,
                             CDDPair_t cdd_pair)
{
    new (&self.sn_sweeper_) std::unique_ptr<SnSweeper>(std::move(cdd_pair.first));
    new (&self.moc_sweeper_) MoCSweeper_2D3D(input.child("moc_sweeper"), mesh);
    new (&self.ang_quad_) AngularQuadrature(self.moc_sweeper_.get_ang_quad());
    self.parse_options(input);
    if (!self.keep_sn_quad_) {
        self.sn_sweeper_->set_ang_quad(self.ang_quad_);
    }
}

void SnSweeper__ctor(SnSweeper &self, const pugi::xml_node &input, const CoreMesh &mesh)
{
    self.gs_boundary_ = true;
    if (input.empty()) {
        throw EXCEPT("");
    }
    if (input.child("data").empty()) {
        self.xs_mesh_ = SP_XSMesh_t(new XSMeshHomogenized(mesh));
    } else {
        try {
            self.xs_mesh_ = SP_XSMesh_t(new XSMeshHomogenized(mesh, input));
        } catch (Exception e) {
            throw EXCEPT("");
        }
    }
    int n = input.attribute("n_inner").as_int(-1);
    if (n < 0) {
        throw EXCEPT("");
    }
    self.n_inner_ = n;
    if (!input.attribute("boundary_update").empty()) {
        std::string in = input.attribute("boundary_update").value();
        sanitize(in);
        if ((in == "gs") || (in == "gauss-seidel")) {
            self.gs_boundary_ = true;
        } else if ((in == "jacobi") || (in == "j")) {
            self.gs_boundary_ = false;
        } else {
            throw EXCEPT("");
        }
    }
    if ((omp_get_max_threads() > 1) && self.gs_boundary_) {
        self.gs_boundary_ = false;
        Warn("");
    }
}

void SnSweeper_CDD__ctor(SnSweeper_CDD<SnSweeper_CDD_DD> &self, const pugi::xml_node &input, const CoreMesh &mesh)
{
    self.dump_corrections_ = false;
    if (!input.attribute("dump_corrections").empty()) {
        self.dump_corrections_ = input.attribute("dump_corrections").as_bool(false);
    }
}

UP_SnSweeper_t fn__SnSweeperFactory(const pugi::xml_node &input, const CoreMesh &mesh)
{
    std::string equation = "dd";
    if (input.attribute("equation")) {
        equation = input.attribute("equation").value();
    }
    if (equation == "dd") {
        std::string axial = "dd";
        if (!input.attribute("axial").empty()) {
            axial = input.attribute("axial").value();
        }
        if (axial == "dd") {
            return UP_SnSweeper_t(new sn::SnSweeper_DD(input, mesh));
        } else if (axial == "sc") {
            return UP_SnSweeper_t(new sn::SnSweeper_DD_SC(input, mesh));
        } else {
            throw EXCEPT("");
        }
    } else if (equation == "cdd") {
        auto cdd_pair = SnSweeperFactory_CDD(input, mesh);
        return std::move(cdd_pair.first);
    } else {
        throw EXCEPT("");
    }
}

template <class T> CDDPair_t made(const pugi::xml_node &input, const CoreMesh &mesh)
{
    std::unique_ptr<T> swp(std::make_unique<T>(input, mesh));
    std::shared_ptr<CorrectionData> corrections(
        std::make_shared<CorrectionData>(mesh, swp->ang_quad().ndir() / 2, swp->n_group()));
    if (!input.child("data").empty()) {
        corrections->from_data(input);
    }
    swp->set_corrections(corrections);
    return CDDPair_t(std::move(swp), corrections);
}

CDDPair_t fn__SnSweeperFactory_CDD(const pugi::xml_node &input, const CoreMesh &mesh)
{
    std::string equation = "cdd";
    if (!input.attribute("equation").empty()) {
        equation = input.attribute("equation").value();
        sanitize(equation);
    }
    if (equation != "cdd") {
        std::unique_ptr<SnSweeper> sweeper;
        std::shared_ptr<CorrectionData> corrections;
        sweeper     = SnSweeperFactory(input, mesh);
        corrections = std::make_shared<CorrectionData>(mesh, sweeper->ang_quad().ndir() / 2, sweeper->n_group());
        corrections->from_data(input);
        return CDDPair_t(std::move(sweeper), corrections);
    }
    std::string axial = "dd";
    if (!input.attribute("axial").empty()) {
        axial = input.attribute("axial").value();
        sanitize(axial);
    }
    if (axial == "dd") {
        return made<SnSweeper_CDD_DD>(input, mesh);
    } else if (axial == "dd_ff") {
        return made<SnSweeper_CDD_DD_FF>(input, mesh);
    } else if (axial == "sc") {
        return made<SnSweeper_CDD_SC>(input, mesh);
    } else if (axial == "fw") {
        return made<SnSweeper_CDD_FW>(input, mesh);
    } else if (axial == "pmb") {
        return made<SnSweeper_CDD_PMB>(input, mesh);
    } else {
        throw EXCEPT("");
    }
}

void MoCSweeper__ctor(moc::MoCSweeper &self, const pugi::xml_node &input, const CoreMesh &mesh)
{
    if (input.empty()) {
        throw EXCEPT("");
    }
    int n = input.attribute("n_inner").as_int(-1);
    if (n < 0) {
        throw EXCEPT("");
    }
    self.n_inner_               = n;
    self.dump_rays_             = input.attribute("dump_rays").as_bool(false);
    self.dump_fsr_flux_         = input.attribute("dump_fsr_flux").as_bool(false);
    self.gauss_seidel_boundary_ = true;
    if (!input.attribute("boundary_update").empty()) {
        std::string in = input.attribute("boundary_update").value();
        sanitize(in);
        if (in == "jacobi" || in == "j") {
            self.gauss_seidel_boundary_ = false;
        } else if (in == "gs") {
        } else {
            throw EXCEPT("");
        }
    }
    self.allow_splitting_ = input.attribute("tl_splitting").as_bool(false);
    if (self.allow_splitting_) {
        self.split_.resize(self.n_reg_);
    }
}

const pugi::xml_node fn__find_angquad(const pugi::xml_node &input)
{
    if (input.empty()) {
        throw EXCEPT("");
    }
    pugi::xml_node current = input;
    while (true) {
        if (!current.child("ang_quad").empty()) {
            return current.child("ang_quad");
        } else if (!current.parent().empty()) {
            current = current.parent();
        } else {
            throw EXCEPT("");
            break;
        }
    }
    return input;
}

bool fn__validate_input(const pugi::xml_node &input, const std::vector<std::string> names)
{
    bool good = true;
    for (const auto a : input.attributes()) {
        if (std::find(names.begin(), names.end(), a.name()) == names.end()) {
            good = false;
            Warn("");
        }
    }
    return good;
}
}
