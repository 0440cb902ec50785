"""C20: Monte Carlo tallies."""
from ref import *

TITLE = "Monte Carlo tallies report unbiased means and consistent uncertainties"
EXPLANATION = (
    "The tallies, their use in a batch and in the cycles of the eigenvalue solver are compared with reference definitions over all "
    "scores, weights, volumes and cycle counts; the scores of a history are compared with those of C19's flight and collision.")


def check(ck):
    specs(ck, "c20", "c19")
    like(ck, "scalar", "a scalar tally reports its score per weight and the deviation of that mean",
         ["TallyScalar::TallyScalar", "TallyScalar::score", "TallyScalar::add_weight", "TallyScalar::reset", "TallyScalar::get"])
    like(ck, "spatial", "a spatial tally accumulates realisations per weight and reports them per volume with their relative deviation",
         [("TallySpatial::TallySpatial", {"pick": lambda f: len(f.p) == 1 and "vector" in f.p[0]["t"] or "VecF" in f.p[0]["t"]}),
          "TallySpatial::score", "TallySpatial::add_weight", "TallySpatial::commit_realization", "TallySpatial::reset", "TallySpatial::get"])
    acts = ("reset", "commit_realization", "simulate", "score", "add_weight", "commit_tallies", "reset_tallies", "step", "clear")
    like(ck, "all", "clearing and committing reach every tally", ["ParticlePusher::reset_tallies", "ParticlePusher::commit_tallies"], opaque=acts)
    like(ck, "batch", "every banked particle is simulated once, then the batch is committed once",
         [("ParticlePusher::simulate@2", {"ref": "ParticlePusher__simulate_bank", "pick": lambda f: "FissionBank" in f.p[0]["t"]})],
         opaque=acts, order=(("clear", "simulate", "commit_tallies"), ("simulate", "score")))
    like(ck, "cycles", "only active cycles contribute to the results, and tallies are cleared between",
         ["MonteCarloEigenvalueSolver::solve", ("MonteCarloEigenvalueSolver::step", {"skip": ("dump_sites_",), "throws": False})],
         opaque=acts + ("get", "shannon_entropy", "swap", "resize", "stable_sort"),
         order=(("step", "reset_tallies"), ("simulate", "reset_tallies"), ("swap", "stable_sort", "resize")))
    like(ck, "entropy", "the entropy counts every site once in its own cell", ["FissionBank::shannon_entropy"], opaque=("coarse_cell_point",))
    rng = ("random", "sample_cdf", "set_seed", "jump_ahead")
    geo = ("get_location_info", "find_reg", "coarse_cell", "distance_to_surface", "boundary_surface", "boundary_condition",
           "Direction::reflect", "Isotropic")
    tal = ("score", "add_weight", "commit_tallies", "collide", "push_back")
    like(ck, "scores", "every flight and collision scores once with the weight, cross section and region of the particle",
         ["ParticlePusher::collide", ("ParticlePusher::simulate@2", {"pick": lambda f: "Particle" in f.p[0]["t"]})],
         opaque=rng + geo + tal)
