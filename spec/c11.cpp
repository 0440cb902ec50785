#include "core/core_mesh.hpp"
#include "core/mesh.hpp"
#include "core/plane.hpp"
#include "common.hpp"
#include <algorithm>

namespace ref {
// Cells count up in x, then y, then z.
int Mesh__coarse_cell(const Mesh &self, Position pos)
{
    return pos.x + self.nx_ * (pos.y + self.ny_ * pos.z);
}

Position Mesh__coarse_position(const Mesh &self, size_t cell)
{
    return Position(cell % self.nx_, (cell % (self.nx_ * self.ny_)) / self.nx_, cell / (self.nx_ * self.ny_));
}

int Mesh__n_pin(const Mesh &self)
{
    return self.nx_ * self.ny_ * self.nz_;
}

size_t Mesh__n_surf(const Mesh &self)
{
    return (self.nx_ + 1) * self.ny_ * self.nz_ + self.nx_ * (self.ny_ + 1) * self.nz_ + self.nx_ * self.ny_ * (self.nz_ + 1);
}

size_t Mesh__n_reg(const Mesh &self, MeshTreatment treatment)
{
    if (treatment == MeshTreatment::PIN) {
        return self.nx_ * self.ny_ * self.nz_;
    }
    return self.nx_ * self.ny_ * (self.macroplane_index_.back() + 1);
}

int Mesh__plane_cell_begin(const Mesh &self, int plane)
{
    return self.nx_ * self.ny_ * plane;
}

int Mesh__plane_cell_end(const Mesh &self, int plane)
{
    return self.nx_ * self.ny_ * (plane + 1);
}

int Mesh__plane_surf_begin(const Mesh &self, int plane)
{
    return self.n_surf_plane_ * plane;
}

int Mesh__plane_surf_end(const Mesh &self, int plane)
{
    return self.n_surf_plane_ * (plane + 1);
}

// In a plane the bottom faces come first.
int Mesh__plane_surf_xy_begin(const Mesh &self, int plane)
{
    return self.n_surf_plane_ * plane + self.nx_ * self.ny_;
}

size_t Mesh__n_cell_plane(const Mesh &self)
{
    return self.nx_ * self.ny_;
}

size_t Mesh__n_surf_plane(const Mesh &self)
{
    return self.n_surf_plane_;
}

int Mesh__coarse_cell_offset(const Mesh &self, size_t plane)
{
    return self.nx_ * self.ny_ * plane;
}

int Mesh__coarse_surf_offset(const Mesh &self, size_t plane)
{
    return self.n_surf_plane_ * plane;
}

int Mesh__coarse_surf(const Mesh &self, int i, Surface surf)
{
    return self.coarse_surf_[6 * i + (int)surf];
}

Mesh::BCArray_t Mesh__boundary_array(const Mesh &self)
{
    Mesh::BCArray_t bc;
    bc[0][0] = self.bc_[2];
    bc[0][1] = self.bc_[0];
    bc[1][0] = self.bc_[3];
    bc[1][1] = self.bc_[1];
    bc[2][0] = self.bc_[5];
    bc[2][1] = self.bc_[4];
    return bc;
}

Boundary Mesh__boundary_condition(const Mesh &self, Surface surf)
{
    return self.bc_[(int)surf];
}

real_t Mesh__cell_thickness(const Mesh &self, int cell, Normal norm)
{
    real_t h = 0;
    if (norm == Normal::X_NORM) {
        h = self.dx_vec_[cell % self.nx_];
    }
    if (norm == Normal::Y_NORM) {
        h = self.dy_vec_[(cell % (self.nx_ * self.ny_)) / self.nx_];
    }
    if (norm == Normal::Z_NORM) {
        h = self.dz_vec_[cell / (self.nx_ * self.ny_)];
    }
    return h;
}

Normal Mesh__surface_normal(const Mesh &self, int surface)
{
    int nz = self.nx_ * self.ny_;
    int nx = (self.nx_ + 1) * self.ny_;
    int ny = (self.ny_ + 1) * self.nx_;
    int i  = surface % (nz + nx + ny);
    if (i < nz) {
        return Normal::Z_NORM;
    }
    return (i < nz + nx) ? Normal::X_NORM : Normal::Y_NORM;
}

// Each face of a cell, in the order Z-normal, X-normal, Y-normal per plane.
// Faces between two cells have one number.
void Mesh__prepare_surfaces(Mesh &self)
{
    int nz    = self.nx_ * self.ny_;
    int nx    = (self.nx_ + 1) * self.ny_;
    int ny    = (self.ny_ + 1) * self.nx_;
    int plane = nz + nx + ny;
    self.coarse_surf_ = VecI(6 * self.nx_ * self.ny_ * self.nz_, 0);
    for (int z = 0; z < self.nz_; z++) {
        for (int y = 0; y < self.ny_; y++) {
            for (int x = 0; x < self.nx_; x++) {
                int c                        = 6 * (x + self.nx_ * (y + self.ny_ * z));
                int o                        = plane * z;
                self.coarse_surf_[c + 0] = o + nz + (self.nx_ + 1) * y + x + 1;
                self.coarse_surf_[c + 1] = o + nz + nx + (self.ny_ + 1) * x + y + 1;
                self.coarse_surf_[c + 2] = o + nz + (self.nx_ + 1) * y + x;
                self.coarse_surf_[c + 3] = o + nz + nx + (self.ny_ + 1) * x + y;
                self.coarse_surf_[c + 4] = o + plane + self.nx_ * y + x;
                self.coarse_surf_[c + 5] = o + self.nx_ * y + x;
            }
        }
    }
}

std::pair<int, int> Mesh__coarse_neigh_cells(const Mesh &self, size_t surf)
{
    std::pair<int, int> cells;
    int iz = surf / self.n_surf_plane_;
    int s  = surf - iz * self.n_surf_plane_;
    int nxy = self.nx_ * self.ny_;
    Normal n = self.surface_normal(surf);
    if (n == Normal::X_NORM) {
        int ix       = (s - nxy) % (self.nx_ + 1);
        int iy       = (s - nxy) / (self.nx_ + 1);
        cells.first  = (ix > 0) ? ix - 1 + self.nx_ * iy + nxy * iz : -1;
        cells.second = (ix < self.nx_) ? ix + self.nx_ * iy + nxy * iz : -1;
    } else if (n == Normal::Y_NORM) {
        int r        = s - nxy - (self.nx_ + 1) * self.ny_;
        int iy       = r % (self.ny_ + 1);
        int ix       = r / (self.ny_ + 1);
        cells.first  = (iy > 0) ? ix + self.nx_ * (iy - 1) + nxy * iz : -1;
        cells.second = (iy < self.ny_) ? ix + self.nx_ * iy + nxy * iz : -1;
    } else {
        int iy       = s / self.nx_;
        int ix       = s % self.nx_;
        cells.first  = (iz > 0) ? ix + self.nx_ * iy + nxy * (iz - 1) : -1;
        cells.second = (iz < self.nz_) ? ix + self.nx_ * iy + nxy * iz : -1;
    }
    return cells;
}

int Mesh__coarse_neighbor(const Mesh &self, size_t cell, Surface surf)
{
    int x = cell % self.nx_;
    int y = (cell % (self.nx_ * self.ny_)) / self.nx_;
    int z = cell / (self.nx_ * self.ny_);
    if (surf == Surface::EAST) {
        return (x < self.nx_ - 1) ? (int)cell + 1 : -1;
    }
    if (surf == Surface::WEST) {
        return (x > 0) ? (int)cell - 1 : -1;
    }
    if (surf == Surface::NORTH) {
        return (y < self.ny_ - 1) ? (int)cell + self.nx_ : -1;
    }
    if (surf == Surface::SOUTH) {
        return (y > 0) ? (int)cell - self.nx_ : -1;
    }
    if (surf == Surface::TOP) {
        return (z < self.nz_ - 1) ? (int)cell + self.nx_ * self.ny_ : -1;
    }
    if (surf == Surface::BOTTOM) {
        return (z > 0) ? (int)cell - self.nx_ * self.ny_ : -1;
    }
    return -5;
}

std::pair<size_t, Surface> Mesh__coarse_interface(const Mesh &self, size_t cell1, size_t cell2)
{
    for (auto is : AllSurfaces) {
        if (self.coarse_neighbor(cell1, is) == (int)cell2) {
            return std::pair<size_t, Surface>(self.coarse_surf(cell1, is), is);
        }
    }
    throw EXCEPT("not neighbours");
}

real_t Mesh__coarse_area_cell(const Mesh &self, size_t cell, Surface surf)
{
    real_t dx = self.dx_vec_[cell % self.nx_];
    real_t dy = self.dy_vec_[(cell % (self.nx_ * self.ny_)) / self.nx_];
    real_t dz = self.dz_vec_[cell / (self.nx_ * self.ny_)];
    if (surf == Surface::EAST || surf == Surface::WEST) {
        return dy * dz;
    }
    if (surf == Surface::NORTH || surf == Surface::SOUTH) {
        return dx * dz;
    }
    if (surf == Surface::TOP || surf == Surface::BOTTOM) {
        return dx * dy;
    }
    return -1;
}

real_t Mesh__coarse_area(const Mesh &self, size_t surf)
{
    real_t area;
    int iz  = surf / self.n_surf_plane_;
    int s   = surf - iz * self.n_surf_plane_;
    int nxy = self.nx_ * self.ny_;
    switch (self.surface_normal(surf)) {
    case Normal::X_NORM:
        area = self.dy_vec_[(s - nxy) / (self.nx_ + 1)] * self.dz_vec_[iz];
        break;
    case Normal::Y_NORM:
        area = self.dx_vec_[(s - nxy - (self.nx_ + 1) * self.ny_) / (self.ny_ + 1)] * self.dz_vec_[iz];
        break;
    case Normal::Z_NORM:
        area = self.dx_vec_[s % self.nx_] * self.dy_vec_[s / self.nx_];
        break;
    }
    return area;
}

int Mesh__plane_index(const Mesh &self, real_t z, real_t oz)
{
    int iz = std::lower_bound(self.z_vec_.begin(), self.z_vec_.end(), z, fuzzy_lt) - self.z_vec_.begin();
    if (fp_equiv(z, self.z_vec_[iz])) {
        if (oz == 0.0) {
            throw EXCEPT("ambiguous");
        }
        iz = (oz > 0.0) ? iz + 1 : iz;
    }
    return std::max(0, std::min(iz - 1, self.nz_ - 1));
}

int Mesh__coarse_cell_point2(const Mesh &self, Point2 p)
{
    auto ix = std::lower_bound(self.x_vec_.begin(), self.x_vec_.end(), p.x) - self.x_vec_.begin() - 1;
    auto iy = std::lower_bound(self.y_vec_.begin(), self.y_vec_.end(), p.y) - self.y_vec_.begin() - 1;
    return ix + self.nx_ * iy;
}

int Mesh__coarse_cell_point3(const Mesh &self, Point3 p)
{
    auto ix = std::lower_bound(self.x_vec_.begin(), self.x_vec_.end(), p.x) - self.x_vec_.begin() - 1;
    auto iy = std::lower_bound(self.y_vec_.begin(), self.y_vec_.end(), p.y) - self.y_vec_.begin() - 1;
    auto iz = std::lower_bound(self.z_vec_.begin(), self.z_vec_.end(), p.z) - self.z_vec_.begin() - 1;
    return ix + self.nx_ * iy + self.nx_ * self.ny_ * iz;
}

int Mesh__n_macroplanes(const Mesh &self)
{
    return self.macroplane_index_.back() + 1;
}

void Mesh__ctor(Mesh &self, size_t n_reg, size_t n_xsreg, const VecF &hx, const VecF &hy, const VecF &hz,
                std::array<Boundary, 6> bc)
{
    self.n_reg_        = n_reg;
    self.n_xsreg_      = n_xsreg;
    self.nx_           = hx.size() - 1;
    self.ny_           = hy.size() - 1;
    self.nz_           = hz.size() - 1;
    self.x_vec_        = hx;
    self.y_vec_        = hy;
    self.z_vec_        = hz;
    self.dx_vec_       = VecF(hx.size() - 1);
    self.dy_vec_       = VecF(hy.size() - 1);
    self.dz_vec_       = VecF(hz.size() - 1);
    self.coarse_vol_   = VecF(self.nx_ * self.ny_ * self.nz_);
    self.n_surf_plane_ = (self.nx_ + 1) * self.ny_ + (self.ny_ + 1) * self.nx_ + self.nx_ * self.ny_;
    self.macroplane_index_ = VecI(self.nz_, 0);
    self.bc_               = bc;
    self.hx_               = hx.back();
    self.hy_               = hy.back();
    self.hz_               = hz.back();
    self.bounding_box_     = Box(Point2(hx[0], hy[0]), Point2(hx.back(), hy.back()));
    for (auto xi = self.x_vec_.cbegin() + 1; xi != self.x_vec_.cend() - 1; ++xi) {
        self.lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hy.back())));
    }
    for (auto yi = self.y_vec_.cbegin() + 1; yi != self.y_vec_.cend() - 1; ++yi) {
        self.lines_.push_back(Line(Point2(0.0, *yi), Point2(hx.back(), *yi)));
    }
    for (size_t i = 1; i < self.x_vec_.size(); i++) {
        self.dx_vec_[i - 1] = hx[i] - hx[i - 1];
    }
    for (size_t i = 1; i < self.y_vec_.size(); i++) {
        self.dy_vec_[i - 1] = hy[i] - hy[i - 1];
    }
    for (size_t i = 1; i < self.z_vec_.size(); i++) {
        self.dz_vec_[i - 1] = hz[i] - hz[i - 1];
    }
    for (int i = 0; i < self.nx_ * self.ny_ * self.nz_; i++) {
        Position p          = self.coarse_position(i);
        self.coarse_vol_[i] = self.dx_vec_[p.x] * self.dy_vec_[p.y] * self.dz_vec_[p.z];
    }
    for (int iz = 0; iz < self.nz_; iz++) {
        self.macroplane_index_[iz] = iz;
    }
    self.prepare_surfaces();
}

size_t CoreMesh__n_reg(const CoreMesh &self, MeshTreatment t)
{
    int n = 0;
    if (t == MeshTreatment::TRUE) {
        n = self.n_reg_;
    }
    if (t == MeshTreatment::PIN) {
        n = self.nx_ * self.ny_ * self.nz_;
    }
    if (t == MeshTreatment::PIN_PLANE) {
        n = self.nx_ * self.ny_ * self.subplane_.size();
    }
    if (t == MeshTreatment::PLANE) {
        int iz = 0;
        for (const auto np : self.subplane_) {
            n += self.planes_[self.unique_plane_ids_[iz]].n_reg();
            iz += np;
        }
    }
    return n;
}

Position CoreMesh__pin_position(const CoreMesh &self, size_t ipin)
{
    Position pos = self.planes_[0].pin_position(ipin % (self.nx_ * self.ny_));
    pos.z        = ipin / (self.nx_ * self.ny_);
    return pos;
}

Point2 CoreMesh__pin_origin(const CoreMesh &self, size_t ipin)
{
    Position pos = self.pin_position(ipin);
    Point2 p;
    p.x = 0.5 * (self.x_vec_[pos.x] + self.x_vec_[pos.x + 1]);
    p.y = 0.5 * (self.y_vec_[pos.y] + self.y_vec_[pos.y + 1]);
    return p;
}

bool CoreMesh__is_2d(const CoreMesh &self)
{
    return self.nz_ == 1 && self.bc_[(int)Surface::TOP] == Boundary::REFLECT &&
           self.bc_[(int)Surface::BOTTOM] == Boundary::REFLECT;
}

const Plane &CoreMesh__get_plane_by_axial_index(const CoreMesh &self, int iz)
{
    return self.planes_[self.unique_plane_ids_[iz]];
}

const Plane &CoreMesh__unique_plane(const CoreMesh &self, int ip)
{
    return self.planes_[ip];
}

size_t CoreMesh__first_reg_plane(const CoreMesh &self, int iz)
{
    return self.first_reg_plane_[iz];
}

int CoreMesh__unique_plane_id(const CoreMesh &self, int iz)
{
    return self.unique_plane_ids_[iz];
}

const PinMeshTuple CoreMesh__get_pinmesh(const CoreMesh &self, Point2 &p, size_t iplane, int &first_reg)
{
    unsigned int ix = std::lower_bound(self.x_vec_.begin(), self.x_vec_.end(), p.x) - self.x_vec_.begin() - 1;
    unsigned int iy = std::lower_bound(self.y_vec_.begin(), self.y_vec_.end(), p.y) - self.y_vec_.begin() - 1;
    Position pos(ix, iy, 0);
    return PinMeshTuple(pos, self.planes_[iplane].get_pinmesh(p, first_reg));
}

CoreMesh::LocationInfo CoreMesh__get_location_info(const CoreMesh &self, Point3 p, Direction dir)
{
    CoreMesh::LocationInfo info;
    info.pos.x = std::lower_bound(self.x_vec_.begin(), self.x_vec_.end(), p.x) - self.x_vec_.begin() - 1;
    info.pos.y = std::lower_bound(self.y_vec_.begin(), self.y_vec_.end(), p.y) - self.y_vec_.begin() - 1;
    info.pos.z = self.plane_index(p.z, dir.oz);
    info.reg_offset = self.first_reg_plane_[info.pos.z];
    Point2 origin   = p.to_2d();
    info.pm = self.planes_[self.unique_plane_ids_[info.pos.z]].get_pinmesh(origin, info.reg_offset, dir);
    info.local_point  = p.to_2d();
    info.local_point -= origin;
    info.pin_boundary = {{Point3(self.x_vec_[info.pos.x], self.y_vec_[info.pos.y], self.z_vec_[info.pos.z]),
                          Point3(self.x_vec_[info.pos.x + 1], self.y_vec_[info.pos.y + 1], self.z_vec_[info.pos.z + 1])}};
    return info;
}

VecF CoreMesh__volumes_true(const CoreMesh &self)
{
    VecF v;
    int ipin = 0;
    for (const auto &pin : self) {
        for (const auto &a : pin->mesh().areas()) {
            v.push_back(a * self.dz_vec_[ipin / (self.nx_ * self.ny_)]);
        }
        ipin++;
    }
    return v;
}

const VecF CoreMesh__volumes(const CoreMesh &self, MeshTreatment treatment)
{
    VecF volumes;
    if (treatment == MeshTreatment::TRUE) {
        int ipin = 0;
        for (const auto &pin : self) {
            for (const auto &a : pin->mesh().areas()) {
                volumes.push_back(a * self.dz_vec_[ipin / (self.nx_ * self.ny_)]);
            }
            ipin++;
        }
        return volumes;
    }
    if (treatment == MeshTreatment::PLANE) {
        VecF volumes;
        int iz     = 0;
        int imacro = 0;
        for (const auto np : self.subplane_) {
            auto stt = self.core_pins_.cbegin() + self.nx_ * self.ny_ * iz;
            auto stp = stt + self.nx_ * self.ny_;
            for (auto it = stt; it != stp; ++it) {
                for (const auto &a : (*it)->mesh().areas()) {
                    volumes.push_back(a * self.macroplane_heights_[imacro]);
                }
            }
            iz += np;
            imacro++;
        }
        return volumes;
    }
    if (treatment == MeshTreatment::PIN_PLANE) {
        for (const auto &m : self.macroplanes_) {
            for (int y = 0; y < self.ny_; y++) {
                for (int x = 0; x < self.nx_; x++) {
                    volumes.push_back(self.dx_vec_[x] * self.dy_vec_[y] * m.height);
                }
            }
        }
        return volumes;
    }
    return self.coarse_vol_;
}

Position Plane__pin_position(const Plane &self, size_t ipin)
{
    size_t i = ipin % self.n_pin_;
    int ilat = 0;
    for (auto &lattice : self.lattices_) {
        if (i < lattice->n_pin()) {
            break;
        }
        i -= lattice->n_pin();
        ilat++;
    }
    int lx = ilat % self.nx_;
    int ly = ilat / self.nx_;
    Position pos(0, 0, 0);
    for (int x = 0; x < lx; x++) {
        pos.x += self.at(x, 0).nx();
    }
    for (int y = 0; y < ly; y++) {
        pos.y += self.at(0, y).ny();
    }
    pos.x += i % self.at(lx, ly).nx();
    pos.y += i / self.at(lx, ly).nx();
    return pos;
}

bool Plane__geometrically_equivalent(const Plane &self, const Plane &other)
{
    if (self.nx_ != other.nx_ || self.ny_ != other.ny_ || self.n_reg_ != other.n_reg_ || self.n_xsreg_ != other.n_xsreg_) {
        return false;
    }
    for (unsigned i = 0; i < self.lattices_.size(); i++) {
        if (!self.lattices_[i]->geometrically_equivalent(*(other.lattices_[i]))) {
            return false;
        }
    }
    return true;
}

int Mesh__coarse_boundary_cell(const Mesh &self, Point2 p, int octant)
{
    bool on_x = false;
    bool on_y = false;
    int ix = 0;
    for (auto &xi : self.x_vec_) {
        if (fp_equiv(p.x, xi)) {
            on_x = true;
            break;
        }
        if (xi > p.x) {
            ix--;
            break;
        }
        ix++;
    }
    int iy = 0;
    for (auto &yi : self.y_vec_) {
        if (fp_equiv(p.y, yi)) {
            on_y = true;
            break;
        }
        if (yi > p.y) {
            iy--;
            break;
        }
        iy++;
    }
    if (fp_equiv_abs(p.x, 0.0)) {
        if (octant == 1) {
        } else {
            if (on_y) {
                iy--;
            }
        }
    } else if (fp_equiv(p.x, self.hx_)) {
        ix--;
        if (octant == 2) {
        } else {
            if (on_y) {
                iy--;
            }
        }
    } else if (fp_equiv_abs(p.y, 0.0)) {
        if (octant == 1) {
        } else {
            if (on_x) {
                ix--;
            }
        }
    } else if (fp_equiv(p.y, self.hy_)) {
        iy--;
        if (octant == 3) {
            if (on_x) {
                ix--;
            }
        } else {
        }
    } else {
    }
    int cell = self.coarse_cell(Position(ix, iy, 0));
    if ((cell < 0) || (cell >= (int)self.n_pin())) {
        std::stringstream msg;
        msg << cell << " " << ix << " " << iy << std::endl;
        msg << p.x << " " << p.y;
        throw EXCEPT(msg.str());
    }
    return cell;
}

int Mesh__coarse_surf_point(const Mesh &self, Point2 p, int cell, std::array<int, 2> &s)
{
    bool on_x = false;
    bool on_y = false;
    int ix = 0;
    for (auto &xi : self.x_vec_) {
        if (fp_equiv(p.x, xi)) {
            on_x = true;
            break;
        }
        if (xi > p.x) {
            ix--;
            break;
        }
        ix++;
    }
    int iy = 0;
    for (auto &yi : self.y_vec_) {
        if (fp_equiv(p.y, yi)) {
            on_y = true;
            break;
        }
        if (yi > p.y) {
            iy--;
            break;
        }
        iy++;
    }
    if (on_x && !on_y) {
        s[0] = self.nx_ * (self.ny_ + iy) + iy + ix;
        s[0] = self.nx_ * self.ny_ + (self.nx_ + 1) * iy + ix;
        return 1;
    }
    if (on_y && !on_x) {
        s[0] = self.nx_ * self.ny_ + self.nx_ * self.ny_ + self.ny_ + iy;
        s[0] = self.nx_ * self.ny_ + (self.nx_ + 1) * self.ny_ + (self.ny_ + 1) * ix + iy;
        return 1;
    }
    if (on_x && on_y) {
        Position cellpos = self.coarse_position(cell);
        Surface corner_x = Surface::INVALID;
        Surface corner_y = Surface::INVALID;
        if (ix == cellpos.x) {
            corner_x = Surface::WEST;
        } else if (ix == cellpos.x + 1) {
            corner_x = Surface::EAST;
        }
        if (iy == cellpos.y) {
            corner_y = Surface::SOUTH;
        } else if (iy == cellpos.y + 1) {
            corner_y = Surface::NORTH;
        }
        Cardinal corner = Cardinal::INVALID;
        if (corner_x == Surface::WEST) {
            if (corner_y == Surface::NORTH) {
                corner = Cardinal::NW;
            } else {
                corner = Cardinal::SW;
            }
        } else {
            if (corner_y == Surface::NORTH) {
                corner = Cardinal::NE;
            } else {
                corner = Cardinal::SE;
            }
        }
        if (ix == 0) {
            int neighbor = self.coarse_neighbor(cell, corner_y);
            switch (corner) {
            case Cardinal::SW:
                s[0] = self.coarse_surf(neighbor, corner_x);
                s[1] = self.coarse_surf(cell, corner_y);
                return 2;
            case Cardinal::NW:
                s[0] = self.coarse_surf(cell, corner_x);
                return 1;
            default:
            }
        }
        if (ix == self.nx_) {
            int neighbor = self.coarse_neighbor(cell, corner_y);
            switch (corner) {
            case Cardinal::SE:
                s[0] = self.coarse_surf(neighbor, corner_x);
                s[1] = self.coarse_surf(cell, corner_y);
                return 2;
            case Cardinal::NE:
                s[0] = self.coarse_surf(cell, corner_x);
                return 1;
            default:
            }
        }
        if (iy == 0) {
            int neighbor = self.coarse_neighbor(cell, corner_x);
            switch (corner) {
            case Cardinal::SW:
                s[0] = self.coarse_surf(neighbor, corner_y);
                s[1] = self.coarse_surf(cell, corner_x);
                return 2;
            case Cardinal::SE:
                s[0] = self.coarse_surf(cell, corner_y);
                return 1;
            default:
            }
        }
        if (iy == self.ny_) {
            int neighbor = self.coarse_neighbor(cell, Surface::EAST);
            switch (corner) {
            case Cardinal::NE:
                s[0] = self.coarse_surf(neighbor, Surface::NORTH);
                s[1] = self.coarse_surf(cell, Surface::EAST);
                return 2;
            case Cardinal::NW:
                s[0] = self.coarse_surf(cell, Surface::NORTH);
                return 1;
            default:
            }
        }
        s[0]      = self.coarse_surf(cell, corner_x);
        int neigh = self.coarse_neighbor(cell, corner_x);
        s[1]      = self.coarse_surf(neigh, corner_y);
        return 2;
    }
    return 0;
}

size_t Mesh__coarse_norm_point(const Mesh &self, Point2 p, int octant, Surface (&s)[2])
{
    bool on_x = false;
    bool on_y = false;
    int ix = 0;
    for (auto &xi : self.x_vec_) {
        if (fp_equiv(p.x, xi)) {
            on_x = true;
            break;
        }
        if (xi > p.x) {
            ix--;
            break;
        }
        ix++;
    }
    int iy = 0;
    for (auto &yi : self.y_vec_) {
        if (fp_equiv(p.y, yi)) {
            on_y = true;
            break;
        }
        if (yi > p.y) {
            iy--;
            break;
        }
        iy++;
    }
    if (!on_x && !on_y) {
        return 0;
    }
    if (on_x != on_y) {
        if (on_x) {
            if ((ix == 0) && ((octant == 1) || (octant == 4))) {
                s[0] = Surface::WEST;
                return 1;
            }
            if ((ix == self.nx_) && ((octant == 2) || (octant == 3))) {
                s[0] = Surface::EAST;
                return 1;
            }
        }
        if (on_y) {
            if ((iy == 0) && ((octant == 1) || (octant == 2))) {
                s[0] = Surface::SOUTH;
                return 1;
            }
            if ((iy == self.ny_) && ((octant == 3) || (octant == 4))) {
                s[0] = Surface::NORTH;
                return 1;
            }
        }
        if (on_x) {
            if ((octant == 1) || (octant == 4)) {
                s[0] = Surface::EAST;
            }
            if ((octant == 2) || (octant == 3)) {
                s[0] = Surface::WEST;
            }
        } else {
            if ((octant == 1) || (octant == 2)) {
                s[0] = Surface::NORTH;
            }
            if ((octant == 3) || (octant == 4)) {
                s[0] = Surface::SOUTH;
            }
        }
        return 1;
    }
    if ((ix > 0) && (ix < self.nx_) && (iy > 0) && (iy < self.ny_)) {
        switch (octant) {
        case 1:
            s[0] = Surface::EAST;
            s[1] = Surface::NORTH;
            break;
        case 2:
            s[0] = Surface::WEST;
            s[1] = Surface::NORTH;
            break;
        case 3:
            s[0] = Surface::WEST;
            s[1] = Surface::SOUTH;
            break;
        case 4:
            s[0] = Surface::EAST;
            s[1] = Surface::SOUTH;
            break;
        }
        return 2;
    }
    if (ix == 0) {
        switch (octant) {
        case 1:
            s[0] = Surface::WEST;
            return 1;
        case 2:
            s[0] = Surface::NORTH;
            s[1] = Surface::WEST;
            return 2;
        case 3:
            s[0] = Surface::SOUTH;
            s[1] = Surface::WEST;
            return 2;
        case 4:
            s[0] = Surface::WEST;
            return 1;
        }
    }
    if (ix == self.nx_) {
        switch (octant) {
        case 1:
            s[0] = Surface::NORTH;
            s[1] = Surface::EAST;
            return 2;
        case 2:
            s[0] = Surface::EAST;
            return 1;
        case 3:
            s[0] = Surface::EAST;
            return 1;
        case 4:
            s[0] = Surface::SOUTH;
            s[1] = Surface::EAST;
            return 2;
        }
    }
    if (iy == 0) {
        switch (octant) {
        case 1:
            s[0] = Surface::SOUTH;
            return 1;
        case 2:
            s[0] = Surface::SOUTH;
            return 1;
        case 3:
            s[0] = Surface::WEST;
            s[1] = Surface::SOUTH;
            return 2;
        case 4:
            s[0] = Surface::EAST;
            s[1] = Surface::SOUTH;
            return 2;
        }
    }
    if (iy == self.ny_) {
        switch (octant) {
        case 1:
            s[0] = Surface::EAST;
            s[1] = Surface::NORTH;
            return 2;
        case 2:
            s[0] = Surface::WEST;
            s[1] = Surface::NORTH;
            return 2;
        case 3:
            s[0] = Surface::NORTH;
            return 1;
        case 4:
            s[0] = Surface::NORTH;
            return 1;
        }
    }
    return 0;
}

void Mesh__trace(const Mesh &self, std::vector<Point2> &ps)
{
    Point2 p1 = ps[0];
    Point2 p2 = ps[1];
    Line l(p1, p2);
    for (auto &li : self.lines_) {
        Point2 intersection;
        if (Intersect(li, l, intersection) == 1) {
            ps.push_back(intersection);
        }
    }
    std::sort(ps.begin(), ps.end());
    ps.erase(std::unique(ps.begin(), ps.end()), ps.end());
    return;
}

void Plane__ctor(Plane &self, const std::vector<const Lattice *> &lattices, size_t nx, size_t ny)
{
    self.lattices_ = lattices;
    self.nx_pin_ = 0;
    self.ny_pin_ = 0;
    self.nx_ = nx;
    self.ny_ = ny;
    VecF dx;
    real_t prev = 0.0;
    self.hx_.push_back(0.0);
    for (size_t ix = 0; ix < self.nx_; ix++) {
        self.hx_.push_back(prev + self.at(ix, 0).hx());
        dx.push_back(self.at(ix, 0).hx());
        prev += self.at(ix, 0).hx();
        self.nx_pin_ += self.at(ix, 0).nx();
    }
    VecF dy;
    prev = 0.0;
    self.hy_.push_back(0.0);
    for (size_t iy = 0; iy < self.ny_; iy++) {
        self.hy_.push_back(prev + self.at(0, iy).hy());
        dy.push_back(self.at(0, iy).hy());
        prev += self.at(0, iy).hy();
        self.ny_pin_ += self.at(0, iy).ny();
    }
    for (size_t iy = 0; iy < self.ny_; iy++) {
        for (size_t ix = 0; ix < self.nx_; ix++) {
            if (!fp_equiv_ulp(self.at(ix, iy).hx(), dx[ix])) {
                throw EXCEPT("Lattices do not have compatible dimensions.");
            }
            if (!fp_equiv_ulp(self.at(ix, iy).hy(), dy[iy])) {
                throw EXCEPT("Lattices do not have compatible dimensions.");
            }
            if (self.at(ix, iy).nx() != self.at(ix, 0).nx() || self.at(ix, iy).ny() != self.at(0, iy).ny()) {
                throw EXCEPT("Lattices do not have compatible pin counts.");
            }
        }
    }
    self.first_reg_lattice_.push_back(0);
    auto prev_reg = 0;
    for (auto li = self.lattices_.begin(); li != self.lattices_.end() - 1; ++li) {
        prev_reg += (*li)->n_reg();
        self.first_reg_lattice_.push_back(prev_reg);
    }
    self.n_reg_   = 0;
    self.n_xsreg_ = 0;
    self.n_fuel_  = 0;
    self.n_pin_   = 0;
    for (auto &l : self.lattices_) {
        self.n_reg_ += l->n_reg();
        self.n_xsreg_ += l->n_xsreg();
        for (const auto pin : *l) {
            if (pin->is_fuel()) {
                self.n_fuel_++;
            }
            self.n_pin_++;
        }
    }
}

const PinMesh * Plane__get_pinmesh(const Plane &self, Point2 &p, int &first_reg, Direction dir)
{
    unsigned ix = std::distance(
        self.hx_.begin(), std::lower_bound(self.hx_.begin(), self.hx_.end(), p.x, fuzzy_lt));
    if (fp_equiv(p.x, self.hx_[ix])) {
        ix = (dir.ox > 0.0) ? ix + 1 : ix;
    }
    ix--;
    unsigned iy = std::distance(
        self.hy_.begin(), std::lower_bound(self.hy_.begin(), self.hy_.end(), p.y, fuzzy_lt));
    if (fp_equiv(p.y, self.hy_[iy])) {
        iy = (dir.oy > 0.0) ? iy + 1 : iy;
    }
    iy--;
    ix = std::min(self.nx_ - 1, std::max(0u, ix));
    iy = std::min(self.ny_ - 1, std::max(0u, iy));
    size_t ilat = self.nx_ * iy + ix;
    p.x -= self.hx_[ix];
    p.y -= self.hy_[iy];
    first_reg += self.first_reg_lattice_[ilat];
    const PinMesh *pm = self.at(ix, iy).get_pinmesh(p, first_reg, dir);
    p.x += self.hx_[ix];
    p.y += self.hy_[iy];
    return pm;
}

VecF Plane__areas(const Plane &self)
{
    VecF areas;
    for (auto &lat : self.lattices_) {
        for (auto &pin : *lat) {
            areas.insert(areas.end(), pin->areas().begin(),
                         pin->areas().end());
        }
    }
    return areas;
}

void CoreMesh__ctor(CoreMesh &self, const pugi::xml_node &input)
{
    self.pin_meshes_ = ParsePinMeshes(input);
    self.mat_lib_ = input.child("material_lib");
    self.pins_ = ParsePins(input, self.pin_meshes_, self.mat_lib_);
    self.lattices_ = ParseLattices(input, self.pins_);
    self.assemblies_ = ParseAssemblies(input, self.lattices_);
    self.core_ = ParseCore(input, self.assemblies_);
    self.subplane_ = self.core_.front().subplane();
    self.nx_           = self.core_.npin_x();
    self.ny_           = self.core_.npin_y();
    self.nz_           = self.core_.nz();
    self.n_surf_plane_ = (self.nx_ + 1) * self.ny_ + (self.ny_ + 1) * self.nx_ + self.nx_ * self.ny_;
    self.nasy_         = self.core_.nasy();
    self.bc_           = self.core_.boundary();
    self.hx_ = 0.0;
    for (int ix = 0; ix < self.core_.nx(); ix++) {
        self.hx_ += self.core_.at(ix, 0).hx();
    }
    self.hy_ = 0.0;
    for (int iy = 0; iy < self.core_.ny(); iy++) {
        self.hy_ += self.core_.at(0, iy).hy();
    }
    std::vector<const Lattice *> plane_lattices;
    plane_lattices.reserve(self.core_.nx() * self.core_.ny());
    int plane_reg = 0;
    self.n_fuel_2d_    = 0;
    for (int iz = 0; iz < self.nz_; iz++) {
        self.first_reg_plane_.push_back(plane_reg);
        for (const auto &assembly : self.core_) {
            const Lattice &lattice = (*assembly)[iz];
            plane_lattices.push_back(&lattice);
            plane_reg += (*assembly)[iz].n_reg();
            for (const auto &pin : lattice) {
                self.core_pins_.push_back(pin);
            }
        }
        Plane temp_plane(plane_lattices, self.core_.nx(), self.core_.ny());
        self.n_fuel_2d_ = std::max(self.n_fuel_2d_, temp_plane.n_fuel());
        auto match_plane =
            std::find_if(self.planes_.begin(), self.planes_.end(), [&](const Plane &p) {
                return p.geometrically_equivalent(temp_plane);
            });
        int unique_id = std::distance(self.planes_.begin(), match_plane);
        if (match_plane == self.planes_.end()) {
            self.planes_.push_back(temp_plane);
            self.first_unique_.push_back(iz);
        } else {
        }
        self.unique_plane_ids_.push_back(unique_id);
        plane_lattices.clear();
    } 
    self.x_vec_.push_back(0.0);
    real_t h_prev = 0.0;
    for (int ilatx = 0; ilatx < self.core_.nx(); ilatx++) {
        const Assembly *asy = &self.core_.at(ilatx, 0);
        const Lattice *lat  = &((*asy)[0]);
        for (auto h : lat->hx_vec()) {
            self.dx_vec_.push_back(h);
            self.x_vec_.push_back(h + h_prev);
            h_prev += h;
        }
    }
    self.y_vec_.push_back(0.0);
    h_prev = 0.0;
    for (int ilaty = 0; ilaty < self.core_.ny(); ilaty++) {
        const Assembly *asy = &self.core_.at(0, ilaty);
        const Lattice *lat  = &((*asy)[0]);
        for (auto h : lat->hy_vec()) {
            self.dy_vec_.push_back(h);
            self.y_vec_.push_back(h + h_prev);
            h_prev += h;
        }
    }
    for (auto xi = self.x_vec_.cbegin() + 1; xi != self.x_vec_.cend() - 1; ++xi) {
        self.lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, self.hy_)));
    }
    for (auto yi = self.y_vec_.cbegin() + 1; yi != self.y_vec_.cend() - 1; ++yi) {
        self.lines_.push_back(Line(Point2(0.0, *yi), Point2(self.hx_, *yi)));
    }
    self.bounding_box_ = Box(Point2(0.0, 0.0), Point2(self.hx_, self.hy_));
    self.dz_vec_ = self.core_.dz();
    self.z_vec_.reserve(self.dz_vec_.size() + 1);
    self.hz_ = 0.0;
    self.z_vec_.push_back(self.hz_);
    for (const auto &dz : self.dz_vec_) {
        self.hz_ += dz;
        self.z_vec_.push_back(self.hz_);
    }
    self.coarse_vol_ = VecF(self.n_pin());
    for (int i = 0; i < self.n_pin(); i++) {
        auto pos       = self.coarse_position(i);
        self.coarse_vol_[i] = self.dx_vec_[pos.x] * self.dy_vec_[pos.y] * self.dz_vec_[pos.z];
    }
    self.n_reg_   = 0;
    self.n_xsreg_ = 0;
    for (auto &a : self.core_.assemblies()) {
        self.n_reg_ += a->n_reg();
        self.n_xsreg_ += a->n_xsreg();
    }
    self.macroplane_heights_ = VecF(self.subplane_.size(), 0.0);
    int iz              = 0;
    int isub            = 0;
    for (const auto &np : self.subplane_) {
        for (int i = 0; i < np; i++) {
            self.macroplane_heights_[isub] += self.dz_vec_[iz];
            iz++;
        }
        isub++;
    }
    self.macroplanes_.reserve(self.subplane_.size());
    iz         = 0;
    int iplane = 0;
    for (const auto np : self.subplane_) {
        MacroPlane::PinIter_t stt = self.core_pins_.begin() + iz * self.nx_ * self.ny_;
        MacroPlane::PinIter_t stp = stt + self.nx_ * self.ny_;
        self.macroplanes_.emplace_back(&(self.planes_[self.unique_plane_ids_[iz]]), iz,
                                  iz + np - 1, self.macroplane_heights_[iplane], stt,
                                  stp);
        iz += np;
        iplane++;
    }
    self.macroplane_index_.resize(self.nz_);
    iplane = 0;
    for (const auto &mplane : self.macroplanes_) {
        for (int iz = mplane.iz_min; iz <= mplane.iz_max; iz++) {
            self.macroplane_index_[iz] = iplane;
        }
        iplane++;
    }
    self.prepare_surfaces();
}

const PinMesh * Lattice__get_pinmesh(const Lattice &self, Point2 &p, int &first_reg, Direction dir)
{
    unsigned ix = std::distance(
        self.x_vec_.cbegin(),
        std::lower_bound(self.x_vec_.cbegin(), self.x_vec_.cend(), p.x, fuzzy_lt));
    if (fp_equiv_abs(p.x, self.x_vec_[ix])) {
        ix = (dir.ox > 0.0) ? ix + 1 : ix;
    }
    ix--;
    ix = std::min(self.nx_ - 1, std::max(0u, ix));
    p.x = 0.5 * (self.x_vec_[ix + 1] + self.x_vec_[ix]);
    unsigned iy = std::distance(
        self.y_vec_.cbegin(),
        std::lower_bound(self.y_vec_.cbegin(), self.y_vec_.cend(), p.y, fuzzy_lt));
    if (fp_equiv_abs(p.y, self.y_vec_[iy])) {
        iy = (dir.oy > 0.0) ? iy + 1 : iy;
    }
    iy--;
    iy  = std::min(self.ny_ - 1, std::max(0u, iy));
    p.y = 0.5 * (self.y_vec_[iy + 1] + self.y_vec_[iy]);
    unsigned int i = iy * self.nx_ + ix;
    first_reg += self.first_reg_pin_[i];
    return &self.at(ix, iy).mesh();
}

bool Lattice__geometrically_equivalent(const Lattice &self, const Lattice &other)
{
    if ((self.nx_ != other.nx_) || (self.ny_ != other.ny_)) {
        return false;
    }
    if ((self.n_reg_ != other.n_reg_) || (self.n_xsreg_ != other.n_xsreg_)) {
        return false;
    }
    for(unsigned ip=0; ip<self.pins_.size(); ip++) {
        if(self.pins_[ip]->mesh().id() != other.pins_[ip]->mesh().id()) {
            return false;
        }
    }
    return true;
}

int CoreMesh__region_at_point(const CoreMesh &self, Point3 p)
{
    int iz            = self.plane_index(p.z);
    const auto &plane = self.planes_[self.unique_plane_ids_[iz]];
    int ireg = self.first_reg_plane_[iz];
    Point2 p2d    = p.to_2d();
    const auto pm = plane.get_pinmesh(p2d, ireg);
    ireg += pm->find_reg(p2d);
    return ireg;
}

const Lattice & Plane__at(const Plane &self, size_t ix, size_t iy)
{
    return *(self.lattices_[ix + self.nx_ * iy]);
}

const Pin & Lattice__at(const Lattice &self, size_t x, size_t y)
{
    return *self.pins_[y * self.nx_ + x];
}

std::array<Surface, 3> Mesh__boundary_surface(const Mesh &self, Point3 p, Direction dir)
{
    std::array<Surface, 3> surf = {
        {Surface::INTERNAL, Surface::INTERNAL, Surface::INTERNAL}};
    if ((p.x < REAL_FUZZ) && (dir.ox < 0.0)) {
        surf[0] = Surface::WEST;
    } else if ((p.y < REAL_FUZZ) && (dir.oy < 0.0)) {
        surf[0] = Surface::SOUTH;
    }
    if ((p.z < REAL_FUZZ) && (dir.oz < 0.0)) {
        surf[1] = Surface::BOTTOM;
    } else if ((p.x / self.hx_ > 1.0 - REAL_FUZZ) && (dir.ox > 0.0)) {
        surf[1] = Surface::EAST;
    }
    if ((p.y / self.hy_ > 1.0 - REAL_FUZZ) && (dir.oy > 0.0)) {
        surf[2] = Surface::NORTH;
    } else if ((p.z / self.hz_ > 1.0 - REAL_FUZZ) && (dir.oz > 0.0)) {
        surf[2] = Surface::TOP;
    }
    return surf;
}

const VecI & Mesh__macroplane_index(const Mesh &self)
{
    return self.macroplane_index_;
}

int Mesh__macroplane_index(const Mesh &self, int iz)
{
    return self.macroplane_index_[iz];
}

real_t Mesh__coarse_volume(const Mesh &self, int cell)
{
    return self.coarse_vol_[cell];
}

const VecF & Mesh__coarse_volume(const Mesh &self)
{
    return self.coarse_vol_;
}
}
