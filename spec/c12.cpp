#include "core/core_mesh.hpp"
#include "util/error.hpp"
#include "common.hpp"
#include <algorithm>
#include <sstream>
using std::string;

namespace ref {
void Lattice__ctor(Lattice &self, const pugi::xml_node &input, const std::map<int, UP_Pin_t> &pins)
{
    self.id_ = input.attribute("id").as_int(0);
    if (self.id_ == 0) {
        throw EXCEPT("Trouble reading lattice ID.");
    }
    self.nx_ = input.attribute("nx").as_int(0);
    self.ny_ = input.attribute("ny").as_int(0);
    if ((self.nx_ < 1) || (self.ny_ < 1)) {
        throw EXCEPT("Trouble reading lattice dimensions.");
    }
    auto pin_ids = explode_string<int>(input.child_value());
    if (pin_ids.size() != self.nx_ * self.ny_) {
        throw EXCEPT("Incorrect number of pin IDs specified for "
                     "lattice.");
    }
    self.pins_.resize(self.ny_ * self.nx_);
    for (unsigned int iy = 0; iy < self.ny_; iy++) {
        unsigned int row = self.ny_ - iy - 1;
        for (unsigned int ix = 0; ix < self.nx_; ix++) {
            unsigned int col       = ix;
            int pin_id             = pin_ids[iy * self.nx_ + ix];
            if (pins.count(pin_id) == 0) {
                throw EXCEPT("Invalid pin ID specified in lattice.");
            }
            self.pins_[row * self.nx_ + col] = pins.at(pin_id).get();
        }
    }
    self.hx_ = 0.0;
    for (unsigned int ix = 0; ix < self.nx_; ix++) {
        real_t dx = self.at(ix, 0).mesh().pitch_x();
        self.hx_ += dx;
        self.hx_vec_.push_back(dx);
    }
    self.hy_ = 0.0;
    for (unsigned int iy = 0; iy < self.ny_; iy++) {
        real_t dy = self.at(0, iy).mesh().pitch_y();
        self.hy_ += dy;
        self.hy_vec_.push_back(dy);
    }
    self.x_vec_.push_back(0.0);
    for (unsigned int ix = 0; ix < self.nx_; ix++) {
        self.x_vec_.push_back(self.x_vec_[ix] + self.hx_vec_[ix]);
    }
    self.y_vec_.push_back(0.0);
    for (unsigned int iy = 0; iy < self.ny_; iy++) {
        self.y_vec_.push_back(self.y_vec_[iy] + self.hy_vec_[iy]);
    }
    for (unsigned int iy = 0; iy < self.ny_; iy++) {
        for (unsigned int ix = 0; ix < self.nx_; ix++) {
            if (self.at(ix, iy).mesh().pitch_x() != self.hx_vec_[ix]) {
                throw EXCEPT("Incongruent pin pitches found in "
                             "lattice.");
            }
            if (self.at(ix, iy).mesh().pitch_y() != self.hy_vec_[iy]) {
                throw EXCEPT("Incongruent pin pitches found in "
                             "lattice.");
            }
        }
    }
    self.n_reg_   = 0;
    self.n_xsreg_ = 0;
    for (auto &pi : self.pins_) {
        self.n_reg_ += pi->mesh().n_reg();
        self.n_xsreg_ += pi->mesh().n_xsreg();
    }
    unsigned int prev = 0;
    self.first_reg_pin_.push_back(0);
    for (auto pi = self.pins_.begin(); pi != self.pins_.end() - 1; ++pi) {
        prev += (*pi)->n_reg();
        self.first_reg_pin_.push_back(prev);
    }
}

bool Lattice__compatible(const Lattice &self, const Lattice &other)
{
    if (self.hx_ != other.hx_) {
        std::cout << "hx " << self.hx_ << " " << other.hx_ << std::endl;
        return false;
    }
    if (self.hy_ != other.hy_) {
        std::cout << "hy" << std::endl;
        return false;
    }
    if (self.nx_ != other.nx_) {
        std::cout << "nx" << std::endl;
        return false;
    }
    if (self.ny_ != other.ny_) {
        std::cout << "ny" << std::endl;
        return false;
    }
    if (!std::equal(self.hx_vec_.begin(), self.hx_vec_.end(), other.hx_vec_.begin())) {
        std::cout << "hx_vec" << std::endl;
        return false;
    }
    if (!std::equal(self.hy_vec_.begin(), self.hy_vec_.end(), other.hy_vec_.begin())) {
        std::cout << "hy_vec" << std::endl;
        return false;
    }
    return true;
}

void Assembly__ctor(Assembly &self, const pugi::xml_node &input, const std::map<int, UP_Lattice_t> &lattices)
{
    self.id_ = input.attribute("id").as_int(0);
    if (self.id_ == 0) {
        throw EXCEPT("Invalid assembly ID.");
    }
    self.nz_ = input.attribute("np").as_int(0);
    if (self.nz_ < 1) {
        throw EXCEPT(
            "Invalid number of planes (nz) when parsing "
            "assembly.");
    }
    if (!(input.attribute("hz").empty() ^ input.child("hz").empty())) {
        std::stringstream msg;
        msg << "Plane heights improperly specified for assembly " << self.id_
            << ".\n"
            << "Should only be specified by the scalar hz attribute or as a "
               "list in <hz>...</hz>, but not both.";
        throw EXCEPT(msg.str());
    }
    real_t hz = input.attribute("hz").as_double(0.0);
    if (!input.attribute("hz").empty() && !(hz > 0.0)) {
        throw EXCEPT("Plane heights must be positive.");
    }
    if (hz > 0.0) {
        self.dz_ = VecF(self.nz_, hz);
    }
    if (auto hz_in = input.child("hz")) {
        string hzs = hz_in.child_value();
        self.dz_        = explode_string<real_t>(hzs);
        if (self.dz_.size() != self.nz_) {
            std::stringstream msg;
            msg << "Wrong number of plane heights provided for assembly "
                << self.id_ << ".";
            throw EXCEPT(msg.str());
        }
        for (auto dz : self.dz_) {
            if (!(dz > 0.0)) {
                throw EXCEPT("Plane heights must be positive.");
            }
        }
        std::reverse(self.dz_.begin(), self.dz_.end());
    }
    if (input.child("lattices").empty()) {
        throw EXCEPT("No lattices specified!");
    }
    {
        string lat_str   = input.child("lattices").child_value();
        auto lattice_ids = explode_braces(lat_str);
        std::reverse(lattice_ids.begin(), lattice_ids.end());
        for (auto &block : lattice_ids) {
            std::reverse(block.begin(), block.end());
        }
        self.subplane_.reserve(lattice_ids.size());
        for (const auto &block : lattice_ids) {
            self.subplane_.push_back(block.size());
            for (const auto &lat_id : block) {
                if (lattices.count(lat_id) > 0) {
                    self.lattices_.push_back(lattices.at(lat_id).get());
                } else {
                    throw EXCEPT("Unrecognized lattice ID in assembly.");
                }
            }
        }
        if (self.lattices_.size() != self.nz_) {
            throw EXCEPT(
                "Incorrect number of lattices specified for "
                "assembly.");
        }
    }
    self.hx_ = self.lattices_[0]->hx();
    self.hy_ = self.lattices_[0]->hy();
    for (const auto &lat : self.lattices_) {
        if (!lat->compatible(*self.lattices_[0])) {
            throw EXCEPT("Lattices in Assembly are not compatible.");
        }
    }
    self.n_reg_   = 0;
    self.n_xsreg_ = 0;
    for (auto &l : self.lattices_) {
        self.n_reg_ += l->n_reg();
        self.n_xsreg_ += l->n_xsreg();
    }
}

bool Assembly__compatible(const Assembly &self, const Assembly &other)
{
    if (self.lattices_.size() != other.lattices_.size()) {
        return false;
    }
    if (self.subplane_.size() != other.subplane_.size()) {
        return false;
    }
    for (unsigned i = 0; i < self.lattices_.size(); ++i) {
        if (!fp_equiv_ulp(self.dz_[i], other.dz_[i])) {
            return false;
        }
    }
    for (unsigned i = 0; i < self.subplane_.size(); ++i) {
        if (self.subplane_[i] != other.subplane_[i]) {
            return false;
        }
    }
    return true;
}

Boundary fn__bc_parse(const pugi::xml_node &input, const char *surf)
{
    std::string in = input.attribute(surf).value();
    if (in == "vacuum") {
        return Boundary::VACUUM;
    } else if (in == "reflect") {
        return Boundary::REFLECT;
    } else if (in == "prescribed") {
        return Boundary::PRESCRIBED;
    } else {
        return Boundary::INVALID;
    }
}

void Core__ctor(Core &self, const pugi::xml_node &input, const std::map<int, UP_Assembly_t> &assemblies)
{
    self.nx_ = input.attribute("nx").as_int(0);
    self.ny_ = input.attribute("ny").as_int(0);
    if ((self.nx_ < 1) || (self.ny_ < 1)) {
        throw EXCEPT("Invalid core dimensions.");
    }
    self.bc_[(int)Surface::NORTH]  = fn__bc_parse(input, "north");
    self.bc_[(int)Surface::SOUTH]  = fn__bc_parse(input, "south");
    self.bc_[(int)Surface::EAST]   = fn__bc_parse(input, "east");
    self.bc_[(int)Surface::WEST]   = fn__bc_parse(input, "west");
    self.bc_[(int)Surface::TOP]    = fn__bc_parse(input, "top");
    self.bc_[(int)Surface::BOTTOM] = fn__bc_parse(input, "bottom");
    for (int i = 0; i < 6; i++) {
        if (self.bc_[i] == Boundary::INVALID) {
            throw EXCEPT("Not all boundary conditions properly specified.");
        }
    }
    std::string asy_str = input.child_value();
    VecI asy_vec;
    try {
        asy_vec = explode_string<int>(asy_str);
    } catch (Exception e) {
        std::cerr << e.what() << std::endl;
        throw EXCEPT("Failed to read assembly IDs");
    }
    if (asy_vec.size() != self.nx_ * self.ny_) {
        throw EXCEPT("Wrong number of assemblies specified for core.");
    }
    self.assemblies_.resize(self.nx_ * self.ny_);
    int iasy = 0;
    for (unsigned int iy = 0; iy < self.ny_; iy++) {
        unsigned int row = self.ny_ - iy - 1;
        for (unsigned int ix = 0; ix < self.nx_; ix++) {
            unsigned int col = ix;
            int asy_id       = asy_vec[iasy++];
            try {
                Assembly *asy_p              = assemblies.at(asy_id).get();
                self.assemblies_[row * self.nx_ + col] = asy_p;
            } catch (std::out_of_range) {
                throw EXCEPT("Failed to locate assembly in core "
                             "specification.");
            }
        }
    }
    for( const auto &asy: self.assemblies_) {
        if(!self.assemblies_.front()->compatible(*asy)) {
            throw EXCEPT("Assemblies in the core are not compatible.");
        }
    }
    self.npinx_ = 0;
    for (unsigned int i = 0; i < self.nx_; i++) {
        self.npinx_ += self.at(i, 0).nx();
    }
    self.npiny_ = 0;
    for (unsigned int i = 0; i < self.ny_; i++) {
        self.npiny_ += self.at(0, i).ny();
    }
    real_t prev = 0.0;
    for (unsigned int ix = 0; ix < self.nx_; ix++) {
        self.hx_vec_.push_back(prev + self.at(ix, 0).hx());
        prev = self.hx_vec_[ix];
    }
    prev = 0.0;
    for (unsigned int iy = 0; iy < self.ny_; iy++) {
        self.hy_vec_.push_back(prev + self.at(0, iy).hy());
        prev = self.hy_vec_[iy];
    }
}

Core fn__ParseCore(const pugi::xml_node &input, const std::map<int, UP_Assembly_t> &assemblies)
{
    Core core;
    int n_core_enabled = 0;
    for (auto core_xml = input.child("core"); core_xml;
         core_xml      = core_xml.next_sibling("core")) {
        bool core_enabled = true;
        if (!core_xml.attribute("enabled").empty()) {
            core_enabled = core_xml.attribute("enabled").as_bool();
        }
        if (core_enabled) {
            core = Core(core_xml, assemblies);
            n_core_enabled++;
        }
    }
    if (n_core_enabled == 0) {
        throw EXCEPT("No enabled core specifications.");
    }
    if (n_core_enabled > 1) {
        throw EXCEPT("More than one enabled core specification found. Tell "
                     "me which one to use");
    }
    return core;
}

std::map<int, UP_Assembly_t> fn__ParseAssemblies(const pugi::xml_node &input, const std::map<int, UP_Lattice_t> lattices)
{
    std::map<int, UP_Assembly_t> assemblies;
    for (pugi::xml_node asy = input.child("assembly"); asy;
         asy                = asy.next_sibling("assembly")) {
        UP_Assembly_t asy_p(new Assembly(asy, lattices));
        int id = asy_p->id();
        if (assemblies.find(id) != assemblies.end()) {
            std::stringstream msg;
            msg << "Duplicate assembly ID (" << id << ")";
            throw EXCEPT(msg.str());
        }
        assemblies.emplace(asy_p->id(), std::move(asy_p));
    }
    return assemblies;
}

std::map<int, UP_Lattice_t> fn__ParseLattices(const pugi::xml_node &input, const std::map<int, UP_Pin_t> &pins)
{
    std::map<int, UP_Lattice_t> lattices;
    for (pugi::xml_node lat = input.child("lattice"); lat;
         lat                = lat.next_sibling("lattice")) {
        UP_Lattice_t lattice(new Lattice(lat, pins));
        if (lattices.find(lattice->id()) != lattices.end()) {
            std::stringstream msg;
            msg << "Duplicate lattice ID (" << lattice->id() << ") specified";
            throw EXCEPT(msg.str());
        }
        lattices[lattice->id()] = lattice;
    }
    return lattices;
}

std::map<int, UP_Pin_t> fn__ParsePins(const pugi::xml_node &input, const PinMesh_Map_t &meshes, const MaterialLib &mat_lib)
{
    std::map<int, UP_Pin_t> pins;
    for (auto pin = input.child("pin"); pin; pin = pin.next_sibling("pin")) {
        UP_Pin_t pin_p(new Pin(pin, meshes, mat_lib));
        int id = pin_p->id();
        if (pins.find(id) != pins.end()) {
            std::stringstream msg;
            msg << "Duplicate pin ID (" << id << ")";
            throw EXCEPT(msg.str());
        }
        pins.emplace(id, std::move(pin_p));
    }
    return pins;
}

std::map<int, UP_PinMesh_t> fn__ParsePinMeshes(const pugi::xml_node &input)
{
    std::map<int, UP_PinMesh_t> pin_meshes;
    for (pugi::xml_node mesh = input.child("mesh"); mesh;
         mesh                = mesh.next_sibling("mesh")) {
        UP_PinMesh_t pm(PinMeshFactory(mesh));
        int id = pm->id();
        if (pin_meshes.find(id) != pin_meshes.end()) {
            std::stringstream msg;
            msg << "Duplicate pin mesh ID (" << id << ")";
            throw EXCEPT(msg.str());
        }
        pin_meshes.emplace(id, std::move(pm));
    }
    return pin_meshes;
}

PinMesh *fn__PinMeshFactory(const pugi::xml_node &input)
{
    PinMesh *pm = nullptr;
    std::string type = input.attribute("type").value();
    if (type == "cyl") {
        pm = new PinMesh_Cyl(input);
    }
    else if (type == "rect") {
        pm = new PinMesh_Rect(input);
    }
    else {
        std::stringstream err;
        err << "Unrecognized mesh type for mesh ID: "
            << input.attribute("id").as_int();
        throw EXCEPT(err.str());
    }
    return pm;
}

void Pin__ctor(Pin &self, const pugi::xml_node &input, const PinMesh_Map_t &meshes, const MaterialLib &mat_lib)
{
    const_cast<unsigned &>(self.id_) = input.attribute("id").as_int(0);
    if (self.id_ == 0) {
        throw EXCEPT("Failed to read pin ID.");
    }
    self.mesh_id_ = input.attribute("mesh").as_int(0);
    if (self.mesh_id_ == 0) {
        throw EXCEPT("Failed to read pin mesh ID.");
    }
    if (meshes.count(self.mesh_id_) == 0) {
        throw EXCEPT("Invalid pin mesh ID.");
    }
    self.pin_mesh_ = meshes.at(self.mesh_id_).get();
    std::string mats_in = input.child_value();
    self.mat_IDs_            = explode_string<int>(mats_in);
    if ((int)self.mat_IDs_.size() != self.pin_mesh_->n_xsreg()) {
        throw EXCEPT("Wrong number of materials specified in pin "
                     "definition");
    }
    self.is_fuel_ = false;
    for (auto mid : self.mat_IDs_) {
        if (!mat_lib.has(mid)) {
            throw EXCEPT("Invalid material specified in pin");
        }
        const auto &mat = mat_lib[mid];
        if (mat.is_fissile()) {
            self.is_fuel_ = true;
        }
    }
    if (!input.attribute("fuel").empty()) {
        self.is_fuel_ = input.attribute("fuel").as_bool();
    }
}

void PinMesh__ctor(PinMesh &self, const pugi::xml_node &input)
{
    self.id_ = input.attribute("id").as_int(-1);
    if (self.id_ < 0) {
        throw EXCEPT("Failed to read pin ID.");
    }
    self.pitch_x_ = input.attribute("pitch").as_double(-1.0);
    self.pitch_y_ = self.pitch_x_;
    if (self.pitch_x_ <= 0.0) {
        throw EXCEPT("Failed to read valid pin pitch.");
    }
}


const Assembly & Core__at(const Core &self, unsigned int x, unsigned int y)
{
    return *self.assemblies_[y * self.nx_ + x];
}

const Pin & Lattice__at(const Lattice &self, size_t x, size_t y)
{
    return *self.pins_[y * self.nx_ + x];
}

unsigned int Assembly__nx(const Assembly &self)
{
    return self.lattices_[0]->nx();
}

unsigned int Assembly__ny(const Assembly &self)
{
    return self.lattices_[0]->ny();
}

int Core__nz(const Core &self)
{
    return self.assemblies_[0]->nz();
}

int Core__nasy(const Core &self)
{
    return self.assemblies_.size();
}

const VecF & Core__dz(const Core &self)
{
    return self.assemblies_.front()->dz();
}

std::array<Boundary, 6> Core__boundary(const Core &self)
{
    return self.bc_;
}

const Lattice & Plane__at(const Plane &self, size_t ix, size_t iy)
{
    return *(self.lattices_[ix + self.nx_ * iy]);
}

bool MaterialLib__has(const MaterialLib &self, int id)
{
    return self.material_ids_.count(id) > 0;
}

}
