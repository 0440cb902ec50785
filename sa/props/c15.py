"""C15: currents and surface fluxes."""
from ref import *

TITLE = "Currents and surface fluxes tallied by sweepers share one sign convention"
EXPLANATION = (
    "Each tally of the current workers is compared with a reference definition over all meshes, angles, rays and angular "
    "fluxes: the surface, sign, weight and number of contributions, the clearing before and the normalisation after.")


def check(ck):
    specs(ck, "c15", "c07")
    like(ck, "ordinates", "each direction adds once to every surface it crosses, signed by its cosine and weighted as the scalar flux",
         [("sn::Current::upwind_work@5", {"ref": "sn__upwind"}), ("sn::Current::upwind_work@4", {"ref": "sn__upwind_2d"}),
          ("sn::Current::current_work@6", {"ref": "sn__current"}), ("sn::Current::current_work@5", {"ref": "sn__current_2d"}),
          ("sn::Current::set_octant", {"ref": "sn__octant"})],
         skip=("part_x_", "part_y_", "part_z_"), opaque=("coarse_cell", "coarse_surf"))
    like(ck, "rays", "each ray adds to every surface it crosses, in both senses, weighted by the strip it stands for",
         [("moc::Current::set_group", {"ref": "moc__group"}), ("moc::Current::set_plane", {"ref": "moc__plane"}),
          ("moc::Current::set_angle", {"ref": "moc__angle"}), ("moc::Current::post_ray", {"ref": "moc__ray"}),
          ("moc::Current::post_sweep", {"ref": "moc__sweep"}),
          "CurrentCorrections::set_group", "CurrentCorrections::set_plane", "CurrentCorrections::set_angle",
          "CurrentCorrections::post_ray", "CurrentCorrections::post_angle", "CurrentCorrections::residual"],
         opaque=("coarse_neighbor", "coarse_surf", "surface_normal", "coarse_area", "calculate_corrections",
                 "plane_surf_xy_begin", "plane_surf_end"))
    like(ck, "normal", "each face has the normal of its axis", ["surface_to_normal"])
    like(ck, "clear", "tallies are cleared for the group about to be swept, and only there",
         ["CoarseData::zero_data", "CoarseData::zero_data_radial"], opaque=("plane_surf_xy_begin", "plane_surf_end"))

    def inst(short, worker):
        """The distinct definitions behind the instances of a template for one worker."""
        fs = [f for f in ck.prog.funcs.values() if f.body and f.short == short and (f.targs or "").split("::")[-1] == worker + ";"]
        one = {}
        for f in sorted(fs, key=lambda f: f.n):
            one.setdefault((f.file, f.l), f)
        return lambda f: f in one.values()
    acts = ("set_octant", "upwind_work", "current_work", "get_face", "copy_face", "BoundaryCondition::update", "evaluate",
            "evaluate_2d", "coarse_cell")
    pair(ck, "sweeps", "a sweep hands the worker every upwind and downwind face flux once, in the order it crosses them", [
        (inst("sweep_1g", "Current"), "sn__sweep_3d", dict(least=1)),
        (inst("sweep_1g", "NoCurrent"), "sn__sweep_3d_none", dict(least=1)),
        (inst("sweep_1g_2d", "Current"), "sn__sweep_2d", dict(least=1)),
        (inst("sweep_1g_2d", "NoCurrent"), "sn__sweep_2d_none", dict(least=1))],
        opaque=acts, carried=False, havoc=False, order=(("set_octant", "upwind_work", "current_work"), ("copy_face", "upwind_work"),
                            ("evaluate", "current_work"), ("evaluate_2d", "current_work")))
    acts = ("set_group", "set_plane", "set_angle", "post_ray", "post_angle", "post_sweep", "get_boundary",
            "BoundaryCondition::update", "exp")
    pair(ck, "tracks", "a sweep along rays hands the worker each ray once with its angular fluxes in both senses", [
        (inst("sweep1g", "Current"), "moc__sweep1g", dict(least=1)),
        (inst("sweep1g", "NoCurrent"), "moc__sweep1g_none", dict(least=1)),
        (inst("sweep1g", "CurrentCorrections"), "moc__sweep1g_cc", dict(least=1))],
        opaque=acts, carried=False, havoc=False, order=(("set_group", "set_plane", "set_angle", "post_ray", "post_angle", "post_sweep"),))
    pair(ck, "cleared", "a group sweep clears the tallies of its group right before the one inner iteration that tallies", [
        ("MoCSweeper::sweep", "MoCSweeper__sweep"),
        ("MoCSweeper_2D3D::sweep", "MoCSweeper_2D3D__sweep"),
        (lambda f: f.short == "sweep" and f.n.startswith("mocc::sn::SnSweeperVariant<"), "SnSweeperVariant__sweep",
         dict(least=7)),
    ], opaque=("sweep1g", "sweep_1g", "sweep_1g_2d", "expand", "zero_data", "zero_data_radial", "set_has_radial_data",
               "set_has_axial_data", "XSMesh::update", "update", "CurrentCorrections", "residual"),
        drop=("tic", "toc"), order=(
            ("zero_data_radial", "sweep1g<Current>"), ("zero_data_radial", "sweep1g<CurrentCorrections>"),
            ("zero_data", "sweep_1g<Current>"), ("zero_data", "sweep_1g_2d<Current>")))
