#include "sweepers/mc/particle_pusher.hpp"
#include "sweepers/mc/particle.hpp"
#include "sweepers/mc/fission_bank.hpp"
#include "solvers/monte_carlo_eigenvalue_solver.hpp"
#include "util/rng_lcg.hpp"
#include "common.hpp"
#include <cmath>
#include <limits>
using namespace mocc::mc;

namespace mocc {
namespace mc {
extern RNG_LCG RNG;
#pragma omp threadprivate(RNG)
}
}

namespace ref {
real_t fn__distance_to_pin(std::array<Point3, 2> bounds, const mc::Particle &p)
{
    real_t dist  = std::numeric_limits<real_t>::max();
    real_t other = 0.0;
    other = (p.direction.ox > 0.0)
                ? (bounds[1].x - p.location_global.x) / p.direction.ox
                : (bounds[0].x - p.location_global.x) / p.direction.ox;
    other = other > 0.0 ? other : std::numeric_limits<real_t>::max();
    dist  = std::min(other, dist);
    other = (p.direction.oy > 0.0)
                ? (bounds[1].y - p.location_global.y) / p.direction.oy
                : (bounds[0].y - p.location_global.y) / p.direction.oy;
    other = other > 0.0 ? other : std::numeric_limits<real_t>::max();
    dist  = std::min(other, dist);
    other = (p.direction.oz > 0.0)
                ? (bounds[1].z - p.location_global.z) / p.direction.oz
                : (bounds[0].z - p.location_global.z) / p.direction.oz;
    other = other > 0.0 ? other : std::numeric_limits<real_t>::max();
    dist  = std::min(other, dist);
    return dist;
}

void ParticlePusher__collide(ParticlePusher &self, Particle &p)
{
    const auto &xsreg = self.xs_mesh_[p.ixsreg];
    Reaction reaction = (Reaction)RNG.sample_cdf(xsreg.reaction_cdf(p.group));
    real_t k_score = p.weight * xsreg.xsmacnf(p.group) / xsreg.xsmactr(p.group);
    self.k_tally_col_.score(k_score);
    self.fine_flux_col_tally_[p.group].score(p.ireg,
                                        p.weight / xsreg.xsmactr(p.group));
    if (reaction == Reaction::SCATTER) {
        p.group = RNG.sample_cdf(xsreg.xsmacsc().out_cdf(p.group));
        p.direction = Direction::Isotropic(RNG.random(), RNG.random());
    } else if (reaction == Reaction::FISSION) {
        real_t nu = xsreg.xsmacnf(p.group) / xsreg.xsmacf(p.group);
        int n_fis = (p.weight * nu) + RNG.random();
        for (int i = 0; i < n_fis; i++) {
            int ig = RNG.sample_cdf(xsreg.chi_cdf());
            Particle new_p(p.location_global,
                           Direction::Isotropic(RNG.random(), RNG.random()), ig,
                           p.id);
            self.fission_bank_.push_back(new_p);
        }
        p.alive = false;
    } else {
        p.alive = false;
    }
    return;
}

void ParticlePusher__simulate(ParticlePusher &self, Particle p, bool tally)
{
    RNG.set_seed(self.seed_);
    RNG.jump_ahead(((uint64_t)p.id + self.id_offset_) * 10000);
    self.k_tally_tl_.add_weight(p.weight);
    self.k_tally_col_.add_weight(p.weight);
    for (auto &tally : self.scalar_flux_tally_) {
        tally.add_weight(p.weight);
    }
    for (auto &tally : self.fine_flux_tally_) {
        tally.add_weight(p.weight);
    }
    for (auto &tally : self.fine_flux_col_tally_) {
        tally.add_weight(p.weight);
    }
    self.pin_power_tally_.add_weight(p.weight);
    auto location_info =
        self.mesh_.get_location_info(p.location_global, p.direction);
    p.location = location_info.local_point;
    p.ireg     = location_info.reg_offset +
             location_info.pm->find_reg(p.location, p.direction);
    p.pin_position  = location_info.pos;
    int ipin_coarse = self.mesh_.coarse_cell(location_info.pos);
    p.ixsreg = self.xsmesh_regions_[p.ireg];
    p.alive = true;
    while (p.alive) {
        const XSMeshRegion &xsreg = self.xs_mesh_[p.ixsreg];
        real_t xstr               = xsreg.xsmactr(p.group);
        real_t d_to_collision     = -std::log(RNG.random()) / xstr;
        auto d_to_surf = location_info.pm->distance_to_surface(
            p.location, p.direction, p.coincident);
        real_t d_to_pin = fn__distance_to_pin(location_info.pin_boundary, p);
        if (d_to_pin < d_to_surf.first) {
            d_to_surf.first  = d_to_pin;
            d_to_surf.second = true;
        }
        real_t tl = std::min(d_to_collision, d_to_surf.first);
        self.k_tally_tl_.score(tl * p.weight * xsreg.xsmacnf(p.group));
        self.pin_power_tally_.score(ipin_coarse,
                               tl * p.weight * xsreg.xsmacf(p.group));
        self.scalar_flux_tally_[p.group].score(ipin_coarse, tl * p.weight);
        self.fine_flux_tally_[p.group].score(p.ireg, tl * p.weight);
        if (d_to_collision < d_to_surf.first) {
            p.move(d_to_collision);
            p.coincident = -1;
            self.collide(p);
        } else {
            if (!d_to_surf.second) {
                p.move(d_to_surf.first);
                p.ireg = location_info.pm->find_reg(p.location, p.direction) +
                         location_info.reg_offset;
                p.ixsreg = self.xsmesh_regions_[p.ireg];
            } else {
                p.coincident = -1;
                p.move(d_to_surf.first);
                auto bound_surf =
                    self.mesh_.boundary_surface(p.location_global, p.direction);
                bool reflected = false;
                for (const auto &b : bound_surf) {
                    if ((b != Surface::INTERNAL) && (p.alive)) {
                        auto bc = self.mesh_.boundary_condition(b);
                        switch (bc) {
                        case Boundary::REFLECT:
                            reflected = true;
                            p.direction.reflect(b);
                            break;
                        case Boundary::VACUUM:
                            p.alive = false;
                            break;
                        default:
                            throw EXCEPT("Unsupported boundary condition");
                        }
                    }
                }
                if (reflected) {
                    p.move(BUMP);
                }
                if (p.alive) {
                    location_info =
                        self.mesh_.get_location_info(p.location_global, p.direction);
                    p.location = location_info.local_point;
                    p.ireg =
                        location_info.reg_offset +
                        location_info.pm->find_reg(p.location, p.direction);
                    p.pin_position = location_info.pos;
                    ipin_coarse    = self.mesh_.coarse_cell(location_info.pos);
                    p.ixsreg = self.xsmesh_regions_[p.ireg];
                    if (p.ixsreg >= (int)self.xs_mesh_.size()) {
                        std::cout << p;
                        std::cout << std::endl;
                    }
                }
            }
        } 
    }     
    if (tally) {
        self.commit_tallies();
    }
    return;
}

void Particle__move(Particle &self, real_t d)
{
    real_t x = (d + BUMP) * self.direction.ox + BUMP * sgn(self.direction.ox);
    real_t y = (d + BUMP) * self.direction.oy + BUMP * sgn(self.direction.oy);
    real_t z = (d + BUMP) * self.direction.oz + BUMP * sgn(self.direction.oz);
    self.location.x += x;
    self.location.y += y;
    self.location_global.x += x;
    self.location_global.y += y;
    self.location_global.z += z;
}

void Particle__ctor(Particle &self, Point3 loc, Direction dir, int ig, unsigned id)
{
    self.weight          = 1.0;
    self.group           = ig;
    self.direction       = dir;
    self.location_global = loc;
    self.id              = id;
    self.coincident      = -1;
    self.alive           = true;
}

void ParticlePusher__ctor(ParticlePusher &self, const CoreMesh &mesh, const XSMesh &xs_mesh)
{
    for (const auto bc : mesh.boundary()) {
        if (bc != Boundary::REFLECT && bc != Boundary::VACUUM) {
            throw EXCEPT("Unsupported boundary condition");
        }
    }
    self.xsmesh_regions_.resize(mesh.n_reg(MeshTreatment::TRUE), -1);
    int ixs = 0;
    for (const auto &xsreg : xs_mesh) {
        for (const auto &ireg : xsreg.reg()) {
            self.xsmesh_regions_[ireg] = ixs;
        }
        ixs++;
    }
}

int RNG_LCG__sample_cdf(RNG_LCG &self, const std::vector<real_t> &cdf)
{
    real_t v = self.random();
    return std::lower_bound(cdf.begin(), cdf.end(), v) - cdf.begin();
}
} // namespace ref
