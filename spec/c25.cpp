// Reference definitions: input that is refused before it is used.
#include "auxiliary/geometry_output.hpp"
#include "core/core_mesh.hpp"
#include "core/plane.hpp"
#include "util/fp_utils.hpp"
#include "core/parallel_environment.hpp"
#include "input_proc.hpp"
#include "sweepers/moc/moc_sweeper.hpp"
#include "solvers/solver_factory.hpp"
#include "util/error.hpp"
#include "util/files.hpp"
#include "core/globals.hpp"
#include "util/string_utils.hpp"
#include "util/timers.hpp"
#include "common.hpp"
#include <fstream>
#include <sstream>

namespace {
std::string strip_extension(std::string input);
void apply_amendment(pugi::xml_node &node, std::string path, const std::string &value);
}

namespace ref {
void fn__apply_amendment(pugi::xml_node &node, std::string path, const std::string &value)
{
    std::cout << "amendment " << path << "\n";
    std::vector<std::string> path_vec;
    for (;;) {
        size_t pos = path.find("/");
        path_vec.push_back(path.substr(0, pos));
        path = path.substr(pos + 1, std::string::npos);
        if (pos == std::string::npos) {
            break;
        }
    }
    pugi::xml_node node_p = node;
    for (auto s = path_vec.cbegin(); s != path_vec.cend(); ++s) {
        if (s < path_vec.cend() - 1) {
            if (node_p.child(s->c_str()).empty()) {
                throw EXCEPT("Failed to apply command-line amendment");
            }
            node_p = node_p.child(s->c_str());
        } else {
            bool has_attribute = !node_p.attribute(s->c_str()).empty();
            bool has_child     = !node_p.child(s->c_str()).empty();
            if (!(has_attribute ^ has_child)) {
                std::cout << path << std::endl;
                std::cout << has_attribute << " " << has_child << std::endl;
                throw EXCEPT(
                    "Could not find the requested attribute or child to "
                    "modify, or could not disambiguate.");
            }
            if (has_attribute) {
                if (!node_p.attribute(s->c_str()).set_value(value.c_str())) {
                    throw EXCEPT("Failed to modify the requested attribute.");
                }
            }
            if (has_child) {
                pugi::xml_text text = node_p.child(s->c_str()).text();
                if (!text) {
                    throw EXCEPT("No text data found at requested location.");
                }
                text = value.c_str();
            }
        }
    }
    return;
}

void fn__output_geometry(const pugi::xml_node &input, const CoreMesh &mesh)
{
    if (input.empty()) {
        throw EXCEPT("");
    }
    std::string file;
    if (input.attribute("file").empty()) {
        file = "geom.py";
    } else {
        file = input.attribute("file").value();
    }
    int plane = input.attribute("plane").as_int(0);
    if ((plane < 0) || (plane >= (int)mesh.nz())) {
        throw EXCEPT("");
    }
    std::ofstream out(file);
    if (!out.is_open()) {
        throw EXCEPT("");
    }
}

void InputProcessor__process(InputProcessor &self)
{
    self.timer_.tic();
    Timer &mesh_timer = self.timer_.new_timer("Core Mesh");
    mesh_timer.tic();
    std::stringstream xmlstream;
    self.doc_.save(xmlstream);
    if (!self.doc_.child("parallel").empty()) {
        ParEnv = ParallelEnvironment(self.doc_.child("parallel"));
    }
    self.core_mesh_ = std::make_shared<CoreMesh>(self.doc_);
    mesh_timer.toc();
    Timer &solver_timer = self.timer_.new_timer("Solver");
    solver_timer.tic();
    self.solver_ = SolverFactory(self.doc_.child("solver"), *self.core_mesh_.get());
    if (!self.doc_.child("geometry_output").empty()) {
        aux::output_geometry(self.doc_.child("geometry_output"), *self.core_mesh_.get());
    }
    solver_timer.toc();
    self.timer_.toc();
    return;
}

void InputProcessor__ctor(InputProcessor &self, std::vector<std::string> args)
{
    self.core_mesh_ = nullptr;
    self.solver_ = nullptr;
    self.args_ = args;
    std::vector<std::string> replacements;
    std::string filename      = "";
    bool good_cmd             = true;
    std::string command_error = "";
    for (size_t iarg = 1; iarg < self.args_.size(); iarg++) {
        std::string arg = self.args_[iarg];
        if (arg == "-a") {
            if (iarg == self.args_.size() - 1) {
                good_cmd = false;
            } else {
                if (self.args_[iarg + 1][0] == '-') {
                    good_cmd = false;
                }
            }
            if (!good_cmd) {
                command_error = "-a option specified without argument";
                break;
            }
            replacements.push_back(self.args_[++iarg]);
        } else {
            if (filename == "") {
                filename = self.args_[iarg];
            } else {
                good_cmd = false;
                std::stringstream error;
                error << "Filename appears to be multiply-defined: "
                      << filename;
                command_error = error.str();
            }
        }
    }
    if (good_cmd && filename == "") {
        good_cmd      = false;
        command_error = "No filename";
    }
    if (!good_cmd) {
        std::cerr << command_error << std::endl;
        std::cout << "Usage: mocc [-a substitution/path/attribute=value] "
                     "infile"
                  << std::endl;
        exit(EXIT_FAILURE);
    }
    self.case_name_ = strip_extension(filename);
    Timer &xml_timer = self.timer_.new_timer("XML parsing");
    xml_timer.tic();
    pugi::xml_parse_result result = self.doc_.load_file(filename.c_str());
    if (result.status != pugi::status_ok) {
        std::cerr << "XML parse error: " << result.description() << std::endl;
        throw EXCEPT("Error encountered in parsing XML file.");
    }
    for (const auto &replacement : replacements) {
        size_t loc = replacement.find("=");
        if (loc == std::string::npos) {
            std::stringstream msg;
            msg << "Malformed replacement in command line. Proper syntax:"
                << std::endl;
            msg << "-a path/to/attribute:new_value" << std::endl;
            throw EXCEPT(msg.str());
        }
        size_t rloc = replacement.rfind("=");
        if (rloc != loc) {
            throw EXCEPT("Malformed replacement in command line");
        }
        std::string path(replacement, 0, loc);
        std::string value(replacement, loc + 1);
        apply_amendment(self.doc_, path, value);
    }
    if (!self.doc_.child("case_name").empty()) {
        self.case_name_ = self.doc_.child("case_name").child_value();
        if (self.case_name_.empty()) {
            throw EXCEPT("<case_name> was provided, yet empty");
        }
    }
    global::case_name = self.case_name_;
    xml_timer.toc();
    self.timer_.toc();
}


void Plane__ctor(Plane &self, const std::vector<const Lattice *> &lattices, size_t nx, size_t ny)
{
    self.lattices_ = lattices;
    self.nx_pin_ = 0;
    self.ny_pin_ = 0;
    self.nx_ = nx;
    self.ny_ = ny;
    VecF dx;
    real_t prev = 0.0;
    self.hx_.push_back(0.0);
    for (size_t ix = 0; ix < self.nx_; ix++) {
        self.hx_.push_back(prev + self.at(ix, 0).hx());
        dx.push_back(self.at(ix, 0).hx());
        prev += self.at(ix, 0).hx();
        self.nx_pin_ += self.at(ix, 0).nx();
    }
    VecF dy;
    prev = 0.0;
    self.hy_.push_back(0.0);
    for (size_t iy = 0; iy < self.ny_; iy++) {
        self.hy_.push_back(prev + self.at(0, iy).hy());
        dy.push_back(self.at(0, iy).hy());
        prev += self.at(0, iy).hy();
        self.ny_pin_ += self.at(0, iy).ny();
    }
    for (size_t iy = 0; iy < self.ny_; iy++) {
        for (size_t ix = 0; ix < self.nx_; ix++) {
            if (!fp_equiv_ulp(self.at(ix, iy).hx(), dx[ix])) {
                throw EXCEPT("Lattices do not have compatible dimensions.");
            }
            if (!fp_equiv_ulp(self.at(ix, iy).hy(), dy[iy])) {
                throw EXCEPT("Lattices do not have compatible dimensions.");
            }
            if (self.at(ix, iy).nx() != self.at(ix, 0).nx() || self.at(ix, iy).ny() != self.at(0, iy).ny()) {
                throw EXCEPT("Lattices do not have compatible pin counts.");
            }
        }
    }
    self.first_reg_lattice_.push_back(0);
    auto prev_reg = 0;
    for (auto li = self.lattices_.begin(); li != self.lattices_.end() - 1; ++li) {
        prev_reg += (*li)->n_reg();
        self.first_reg_lattice_.push_back(prev_reg);
    }
    self.n_reg_   = 0;
    self.n_xsreg_ = 0;
    self.n_fuel_  = 0;
    self.n_pin_   = 0;
    for (auto &l : self.lattices_) {
        self.n_reg_ += l->n_reg();
        self.n_xsreg_ += l->n_xsreg();
        for (const auto pin : *l) {
            if (pin->is_fuel()) {
                self.n_fuel_++;
            }
            self.n_pin_++;
        }
    }
}

void MoCSweeper__refuses(moc::MoCSweeper &self, const pugi::xml_node &input, const CoreMesh &mesh)
{
    if (input.empty()) {
        throw EXCEPT("");
    }
    if (input.attribute("n_inner").as_int(-1) < 0) {
        throw EXCEPT("");
    }
    if (!input.attribute("boundary_update").empty()) {
        std::string in = input.attribute("boundary_update").value();
        sanitize(in);
        if (in != "jacobi" && in != "j" && in != "gs") {
            throw EXCEPT("");
        }
    }
    for (const auto &assembly : mesh.core()) {
        int bottom = 0;
        for (const auto &n : mesh.subplane()) {
            for (int i = 1; i < n; i++) {
                if ((*assembly)[bottom + i].id() != (*assembly)[bottom].id()) {
                    throw EXCEPT("");
                }
            }
            bottom += n;
        }
    }
    if (input.attribute("dump_rays").as_bool(false)) {
        std::ofstream file("rays.py");
        if (!file.is_open()) {
            throw EXCEPT("");
        }
    }
}
}
