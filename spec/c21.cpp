#include "sweepers/mc/particle_pusher.hpp"
#include "sweepers/mc/particle.hpp"
#include "sweepers/mc/fission_bank.hpp"
#include "solvers/monte_carlo_eigenvalue_solver.hpp"
#include "util/fp_utils.hpp"
#include "util/rng_lcg.hpp"
#include "common.hpp"
#include <cmath>
#include <limits>
using namespace mocc::mc;

namespace mocc {
namespace mc {
extern RNG_LCG RNG;
#pragma omp threadprivate(RNG)
}
}

namespace ref {
void FissionBank__resize(FissionBank &self, unsigned int n, RNG_LCG &rng)
{
    if (n > self.sites_.size()) {
        int n_orig = self.sites_.size();
        while (self.sites_.size() < n) {
            int i_rand = rng.random_int(n_orig);
            self.sites_.push_back(self.sites_[i_rand]);
        }
    }
    if (n < self.sites_.size()) {
        int n_remove = self.sites_.size() - n;
        for (int i = 0; i < n_remove; i++) {
            int i_rand          = rng.random_int(self.sites_.size());
            self.sites_[i_rand] = self.sites_.back();
            self.sites_.pop_back();
        }
    }
}

void FissionBank__swap(FissionBank &self, FissionBank &other)
{
    self.sites_.swap(other.sites_);
    real_t total         = self.total_fission_;
    self.total_fission_  = other.total_fission_;
    other.total_fission_ = total;
}

void FissionBank__push_back(FissionBank &self, Particle &p)
{
    self.sites_.push_back(p);
    self.total_fission_ += p.weight;
}

void FissionBank__ctor(FissionBank &self, const pugi::xml_node &input, int n, const CoreMesh &mesh, const XSMesh &xs_mesh,
                       RNG_LCG &rng)
{
    self.total_fission_ = 0.0;
    if (input.empty()) {
        throw EXCEPT("");
    }
    if (n < 0) {
        throw EXCEPT("");
    }
    int ng = xs_mesh.n_group();
    if (input.attribute("x_min").empty() || input.attribute("x_max").empty() || input.attribute("y_min").empty() ||
        input.attribute("y_max").empty() || input.attribute("z_min").empty() || input.attribute("z_max").empty()) {
        throw EXCEPT("");
    }
    real_t x_min = input.attribute("x_min").as_double(0.0);
    real_t x_max = input.attribute("x_max").as_double(0.0);
    real_t y_min = input.attribute("y_min").as_double(0.0);
    real_t y_max = input.attribute("y_max").as_double(0.0);
    real_t z_min = input.attribute("z_min").as_double(0.0);
    real_t z_max = input.attribute("z_max").as_double(0.0);
    if (x_min >= x_max || y_min >= y_max || z_min >= z_max) {
        throw EXCEPT("");
    }
    if (fuzzy_lt(x_min, mesh.x_divisions().front()) || fuzzy_lt(mesh.x_divisions().back(), x_max) ||
        fuzzy_lt(y_min, mesh.y_divisions().front()) || fuzzy_lt(mesh.y_divisions().back(), y_max) ||
        fuzzy_lt(z_min, mesh.z_divisions().front()) || fuzzy_lt(mesh.z_divisions().back(), z_max)) {
        throw EXCEPT("");
    }
    for (int i = 0; i < n; i++) {
        Point3 p(rng.random(x_min, x_max), rng.random(y_min, y_max), rng.random(z_min, z_max));
        Direction dir = Direction::Isotropic(rng.random(), rng.random());
        int ig        = rng.random_int(ng);
        self.sites_.emplace_back(p, dir, ig, i);
    }
}

bool Particle__less(const Particle &self, const Particle &other)
{
    return self.id < other.id;
}

void RNG_LCG__set_seed(RNG_LCG &self, uint64_t seed)
{
    self.current_seed_ = seed;
}

void RNG_LCG__ctor(RNG_LCG &self, uint64_t seed)
{
    self.current_seed_ = seed;
}

uint64_t RNG_LCG__next(RNG_LCG &self)
{
    self.current_seed_ = (self.current_seed_ * RNG_LCG::m_ + RNG_LCG::b_) & RNG_LCG::mask_;
    return self.current_seed_;
}

real_t RNG_LCG__random(RNG_LCG &self)
{
    return std::min(RNG_LCG::float_scale_ * self(), 1.0 - 0.5 * std::numeric_limits<real_t>::epsilon());
}

real_t RNG_LCG__random_to(RNG_LCG &self, real_t ubound)
{
    return self.random() * ubound;
}

real_t RNG_LCG__random_in(RNG_LCG &self, real_t lbound, real_t ubound)
{
    return lbound + (ubound - lbound) * self.random();
}

int RNG_LCG__random_int(RNG_LCG &self, int ubound)
{
    int i = self.random() * ubound;
    return i;
}

// n steps x -> m x + b taken together are x -> g x + c, formed by squaring
void RNG_LCG__jump_ahead(RNG_LCG &self, uint64_t n)
{
    uint64_t nskip = n;
    uint64_t g     = RNG_LCG::m_;
    uint64_t b     = RNG_LCG::b_;
    uint64_t g_new = 1;
    uint64_t b_new = 0;
    while (nskip > UINT64_C(0)) {
        if (nskip & UINT64_C(1)) {
            g_new = g_new * g & RNG_LCG::mask_;
            b_new = (b_new * g + b) & RNG_LCG::mask_;
        }
        b     = ((g + 1) * b) & RNG_LCG::mask_;
        g     = (g * g) & RNG_LCG::mask_;
        nskip = nskip >> 1;
    }
    self.current_seed_ = (g_new * self.current_seed_ + b_new) & RNG_LCG::mask_;
}
} // namespace ref
