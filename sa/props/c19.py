"""C19: Monte Carlo flights and collisions."""
from ref import *

TITLE = "Monte Carlo collisions follow the material's cross sections"
EXPLANATION = (
    "Flight, surface crossing, boundary treatment and collision are compared with reference definitions over all particles, "
    "materials and meshes: what is sampled from which distribution, how far the particle moves, and what becomes of it.")


def check(ck):
    specs(ck, "c19")
    rng = ("random", "sample_cdf", "set_seed", "jump_ahead")
    geo = ("get_location_info", "find_reg", "coarse_cell", "distance_to_surface", "boundary_surface", "boundary_condition",
           "Direction::reflect", "Isotropic")
    tal = ("score", "add_weight", "commit_tallies", "collide", "push_back")
    like(ck, "collision", "the reaction, outgoing group and fission sites are sampled from the material's probabilities for the group",
         ["ParticlePusher::collide"], opaque=rng + geo + tal)
    like(ck, "flight", "a particle moves the shorter of the sampled distance and the distance to the next surface",
         [("ParticlePusher::simulate@2", {"pick": lambda f: "Particle" in f.p[0]["t"]})],
         opaque=rng + geo + tal)
    like(ck, "pin", "the distance to the pin is that to the nearest face ahead", ["distance_to_pin"])
    like(ck, "particle", "a particle starts as banked and moves along its direction in both frames",
         ["Particle::move", "Particle::Particle@4"])
    like(ck, "regions", "each region of the mesh finds its own cross sections",
         [("ParticlePusher::ParticlePusher@2", {"only": ("xsmesh_regions_",)})])
    like(ck, "sample", "an index is sampled with the probability its distribution gives it", ["RNG_LCG::sample_cdf"], opaque=("random",))
