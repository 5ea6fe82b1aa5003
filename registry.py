"""Which contracts, lemmas and run-time contracts decide which property."""

CPP = "longitudinal_tomography/cpp_routines/"

FLOATS = "machine floating point numbers are treated as real numbers and machine integers as unbounded integers"
PYBIND = ("the pybind11 wrappers in libtomo.cpp (array unpacking, dtype dispatch) are outside the contracts; "
          "the run-time contracts call the routines through them")
SINE = "vdt::fast_sin is an uninterpreted function (taken to be the sine); its accuracy is only sampled"
OMP = "an OpenMP loop whose iterations are proved independent is executed as the sequential loop"
ENGINE = ("the verification condition generator in /verif/dv (symbolic execution of clang's AST, loop summaries, rewriting of finite sums: "
          "linearity, one-point rule, interchange of the order of summation)")
CLANG = "clang 18's AST dump of the translation unit as compiled with -fopenmp"

SINGLE = ["back_project", "project", "normalize", "clip", "find_difference_profile", "discrepancy", "compensate_particle_amount", "max_1d", "sum",
          "count_particles_in_bin", "reciprocal_particles", "create_flat_points", "reconstruct"]
MULTI = ["back_project_multi", "project_multi", "normalize", "clip", "find_difference_profile", "discrepancy", "discrepancy_multi",
         "compensate_particle_amount", "max_1d", "sum", "count_particles_in_bin_multi", "reciprocal_particles_multi", "create_flat_points",
         "create_mask", "reconstruct_multi"]


def cpp(unit, spec, names, exported):
    return dict(kind="cpp", path=CPP + unit, spec=spec, names=names, exported=exported)


def py(spec, *names):
    """contracts of Python functions; without names all contracts of the module"""
    return dict(kind="py", path="longitudinal_tomography", spec=spec + ":ALL", names=list(names) or None, exported=list(names) or None)


REC1 = cpp("reconstruct.cpp", "spec_rec:HELPERS", SINGLE, ["reconstruct", "project", "back_project", "count_particles_in_bin"])
RECM = cpp("reconstruct.cpp", "spec_rec:HELPERS", MULTI, ["reconstruct_multi", "count_particles_in_bin_multi"])
RECALL = cpp("reconstruct.cpp", "spec_rec:HELPERS", sorted(set(SINGLE + MULTI)),
             ["reconstruct", "project", "back_project", "count_particles_in_bin", "reconstruct_multi", "count_particles_in_bin_multi"])
KD = cpp("kick_and_drift.cpp", "spec_kd:ALL", None, ["kick_up", "kick_down", "drift_up", "drift_down", "kick_and_drift"])
KDMAP = cpp("kick_and_drift.cpp", "spec_kd:ALL", ["kick_up", "kick_down", "drift_up", "drift_down"], ["kick_up", "kick_down", "drift_up", "drift_down"])
DT = cpp("data_treatment.cpp", "spec_dt:ALL", None, ["make_phase_space"])

VAT = [f"Machine.values_at_turns ({s} charge, {w} frame as reference)" for s in ("positive", "negative") for w in ("first", "later")]
PSI = ["Particles.homogeneous_distribution", "PhaseSpaceInfo.find_binned_phase_energy_limits", "PhaseSpaceInfo.find_binned_phase_energy_limits (full image)",
       "PhaseSpaceInfo._adjust_limits", "PhaseSpaceInfo._adjust_limits (full image)"]
PSI_REST = [f"PhaseSpaceInfo.{n}" for n in (
    "calc_xorigin", "_calculate_phases", "_trajectoryheight", "_trajectoryheight (phi12 per turn)", "_trajectoryheight (many phases)", "_find_max_binned_energy",
    "_find_min_binned_energy", "_find_min_binned_phase", "_find_max_binned_phase", "find_dEbin", "_limits_track_full_image")]
PROG = [f"ProgramsMachine.values_at_turns ({x})" for x in ("two harmonics, phase program", "one harmonic, phase program", "phi12 given", "phi12 values", "phi12 table", "phi12 later")] + [
    f"ProgramsMachine.find_synchronous_phase ({x})" for x in ("phi12 per turn", "phi12 a number", "no phi12")]

PY_ASSUME = [FLOATS + " (no rounding, no overflow, no NaN or infinity; run-time contracts sample those)", "a division by zero yields an unspecified number",
             "numpy and scipy functions are used by assumed contracts (dv/pynp.py): elementwise operations, reductions, indexing, argwhere/unique/isin, reshape; "
             "scipy.optimize.newton is assumed to return a point its function and derivative arguments accept, or to raise",
             "log calls and texts of messages are not evaluated; arguments have the documented types"]
CPP_ASSUME = [FLOATS, OMP, PYBIND, "std::cout and the callback's own side effects are ignored"]

PROPS = {
    "P01": dict(units=[REC1], classes=("post",), lemmas=[], assume=CPP_ASSUME),
    "P02": dict(units=[REC1, RECM], classes=("post",), lemmas=["valid_single", "valid_multi"], assume=CPP_ASSUME),
    "P03": dict(units=[KD], classes=("post",), lemmas=[], assume=CPP_ASSUME + [SINE, "kick_and_drift is specified for an acceleration phase offset deltaturn = 0 only"]),
    "P04": dict(units=[KD], classes=("post",), lemmas=["reversible"], assume=CPP_ASSUME + [SINE]),
    "P05": dict(units=[RECALL, KD, DT], classes=("safety", "bounds"), lemmas=[], asan=True, assume=CPP_ASSUME + ["allocation with new never fails"]),
    "P06": dict(units=[RECALL, KD, DT], classes=("race",), lemmas=[], assume=CPP_ASSUME + ["data races are decided per OpenMP worksharing loop from the AST; the OpenMP runtime itself is trusted"]),
    "P07": dict(units=[DT], classes=("post",), lemmas=[], assume=CPP_ASSUME),
    "P08": dict(units=[RECM], classes=("post",), lemmas=[], assume=CPP_ASSUME + [
        "the per-bunch discrepancies stored by reconstruct_multi are covered by the run-time contract only (discrepancy_multi, which computes them, is proved)"]),
    "P09": dict(units=[py("spec_data", "Frames.to_waterfall", "Frames.raw_data"), py("spec_valid", "assert_frame_inputs", "assert_inrange")],
                classes=("post",), lemmas=[], assume=PY_ASSUME, rt_quick=8),
    "P10": dict(units=[py("spec_data", "rebin")], classes=("post",), lemmas=[], assume=PY_ASSUME + [
        "for a factor that does not divide the number of bins, the last bin is specified as the code documents it (scaled mean over the tail)"], rt_quick=8),
    "P11": dict(units=[py("spec_part", "filter_lost", "ready_for_tomography"), py("spec_valid", "assert_only_valid_particles")], classes=("post",), lemmas=[],
                assume=PY_ASSUME, rt_quick=8),
    "P12": dict(units=[py("spec_tomo")], classes=("post",), lemmas=[], assume=PY_ASSUME + ["the compiled reconstruction is used by its contract, which P01 and P02 verify"], rt_quick=8),
    "P13": dict(units=[py("spec_part", "physical_to_coords", "Particles._bin_nr_to_physical_coords", "bins to physical and back")], classes=("post",), lemmas=[],
                assume=PY_ASSUME, rt_quick=8),
    "P14": dict(units=[py("spec_psi", n) for n in PSI] + [py("spec_psi", *PSI_REST)], classes=("post",), lemmas=["index_arithmetic"], assume=PY_ASSUME + [
        "the heights of the trajectories are real roots (the complex square root is used by its contract on the reals)"], rt_quick=10),
    "P15": dict(units=[py("spec_phys", n) for n in VAT] + [py("spec_phys", *PROG)], classes=("post",), lemmas=[], assume=PY_ASSUME + [
        "the turns a momentum program is cut into (ProgramsMachine._interpolate_momentum) are covered at run time only; numpy's interp and gradient are functions of their arguments"], rt_quick=8),
    "P16": dict(units=[py("spec_form")], classes=("post",), lemmas=[], assume=PY_ASSUME + [
        "sine, cosine and square root are uninterpreted except for the rules of differentiation and the square of the root"], rt_quick=8),
    "P17": dict(units=[py("spec_valid")], classes=("post",), lemmas=[], assume=PY_ASSUME, rt_quick=8),
    "P19": dict(units=[py("spec_data", "Profiles.waterfall"), py("spec_track", "Profiles.calc_profilecharge", "Profiles._find_wrap_length", "Profiles._calculate_self",
                                                                    "Profiles.calc_self_fields"), py("spec_phys", "calc_self_field_coeffs")],
                classes=("post",), lemmas=[], assume=PY_ASSUME + ["scipy's Savitzky-Golay filter is not modelled; the unfiltered default is covered at run time only"], rt_quick=8),
    "P20": dict(units=[py("spec_track", "ParticleTracker.__init__", "Tracking.track", "Particles.coordinates_dphi_denergy (setter)", "phase_space_from_coordinates", "phase_space",
                          "ParticleTracker.enable_self_fields"), py("spec_valid", "assert_index_ok")],
                classes=("post",), lemmas=[], assume=PY_ASSUME + ["the compiled tracking and image routines are used by their contracts, which P03 and P07 verify"], rt_quick=8),
    "P21": dict(units=[py("spec_data", "cut_waterfall")], classes=("post",), lemmas=[], assume=PY_ASSUME, rt_quick=8),
}
TRUSTED = [ENGINE, "z3 4.x (unsat answers)", CLANG]
