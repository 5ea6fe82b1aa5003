"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
CPP = "longitudinal_tomography/cpp_routines/"
PK = "longitudinal_tomography/"
A = []


def prop(id, title, statement, over, text, why, files, mech, note, level="proof", technique=None):
    A.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, level=level,
                  technique=technique or "contract-based deductive verification of the source (verification conditions discharged by z3), run-time evaluation of the same contracts for failing inputs"))


ALLIN = "every number of particles, profiles, bins and iterations, all coordinates inside the image and all waterfalls"
prop("P01", "The reconstruction computes the documented iteration",
     "Reconstructing from in-range particle coordinates and a waterfall returns the weights obtained by back projecting the waterfall and then, for every iteration, "
     "back projecting the difference between waterfall and normalised projection, each bin compensated by (largest particle count / own particle count), and clipping negative weights to zero. "
     "The discrepancy of entry k is the root mean square difference after k corrections, the last one after the last correction, and the recreated waterfall is the normalised projection of the returned weights. "
     "An error is raised if and only if at some point no weight is left, and the progress callback sees each iteration once, in order, plus a final call.",
     ["inputs"], ALLIN, "The tests compare a few stored waterfalls; a mistake in the handling of empty bins, repeated bins, the number of iterations, clipping or of the first or last element shows only for other inputs.",
     [CPP + "reconstruct.cpp", CPP + "libtomo.cpp", PK + "tomography/tomography.py"],
     [("reconstruct, back_project, project, normalize, compensate_particle_amount, reciprocal_particles", CPP + "reconstruct.cpp")],
     "every function of the single-bunch reconstruction under contract; floats as reals; wrappers only at run time")
prop("P02", "Successful reconstructions return physically valid results",
     "Whenever a reconstruction (single- or multi-bunch) returns normally from a waterfall with finite values, all weights are finite and non-negative, every recreated profile is non-negative and adds up to one, "
     "and there are exactly one more discrepancy values than iterations, all non-negative. When no weight is left an error is raised instead of returning undefined numbers.",
     ["inputs"], ALLIN + ", including waterfalls with negative and zero entries", "Tests look at single examples; the invariant must hold after any number of iterations for any input.",
     [CPP + "reconstruct.cpp"], [("clip, normalize, discrepancy", CPP + "reconstruct.cpp")],
     "lemmas over the verified contracts of reconstruct and reconstruct_multi; floats as reals")
prop("P03", "Tracking applies the kick-and-drift map turn by turn",
     "Tracking a distribution from the reconstructed profile over all turns stores, for every profile p and particle, the phase and energy after the turns between the reconstructed profile and p: forwards drift then kick with that turn's voltages, synchronous phase and energy gain, backwards the inverse of the same map. "
     "The stored row of the reconstructed profile is the start distribution and the progress callback sees every turn once, in order.",
     ["inputs"], "every number of particles, profiles, turns per profile, every reconstructed profile (first and last included) and all machine parameter arrays",
     "Tests track a few particles over one fixed machine; indexing errors at the borders, for the second harmonic or for particular profile choices stay invisible.",
     [CPP + "kick_and_drift.cpp", CPP + "libtomo.cpp", PK + "tracking/tracking.py"], [("kick_and_drift, kick_up, kick_down, drift_up, drift_down", CPP + "kick_and_drift.cpp")],
     "kick_and_drift and its helpers under contract for all sizes; sine uninterpreted; floats as reals; deltaturn = 0")
prop("P04", "One turn backwards undoes one turn forwards",
     "Applying the backward kick and drift of a turn after the forward drift and kick of that turn, or the other way round, restores every particle's phase and energy exactly (in exact arithmetic). "
     "Consequently the coordinates stored for profiles before and after the reconstructed one lie on one orbit of the same map.",
     ["inputs"], "every particle, turn and set of machine parameters", "Reversibility is an equality of two compositions for all inputs; tests only check stored numbers in one direction.",
     [CPP + "kick_and_drift.cpp"], [("kick_up, kick_down, drift_up, drift_down", CPP + "kick_and_drift.cpp")],
     "lemma over the verified contracts; sine uninterpreted; floats as reals")
prop("P05", "Compiled routines never touch memory outside their arrays",
     "Called with arrays of the documented sizes and coordinates inside the image, the compiled tracking, reconstruction and image routines read and write only inside the arrays they were given or allocated, free every block exactly once, also when an error is raised, and never divide integers by zero.",
     ["inputs"], ALLIN + ", every reconstructed profile", "An out-of-bounds access seldom changes the numbers a test compares.",
     [CPP + "reconstruct.cpp", CPP + "kick_and_drift.cpp", CPP + "data_treatment.cpp", CPP + "libtomo.cpp"],
     [("index arithmetic of every loop; new[]/delete[] pairing", CPP + "*.cpp")],
     "bounds, allocation and division obligations of all routines discharged for all sizes; integers unbounded; wrappers covered by AddressSanitizer runs")
prop("P06", "Results do not depend on the number of threads or the schedule",
     "No two iterations of a parallel loop in the compiled routines access the same memory location unless both only read or the update is atomic, so that every schedule and thread count gives the same result up to the rounding of reordered sums.",
     ["schedules", "inputs"], "every interleaving of every parallel loop, every number of threads, all inputs", "A race shows only for particular interleavings and thread counts.",
     [CPP + "reconstruct.cpp", CPP + "kick_and_drift.cpp", CPP + "data_treatment.cpp"], [("omp parallel for clauses (private, reduction, atomic)", CPP + "*.cpp")],
     "independence of iterations proved per worksharing loop; OpenMP runtime trusted")
prop("P07", "The phase-space image bins every particle's weight exactly once",
     "The compiled phase-space image has the requested size and each cell holds the sum of the weights of the particles whose coordinates are that cell. An error is raised if and only if some coordinate lies outside the image, so no weight is ever lost or added to a wrong cell.",
     ["inputs"], "every number of particles, every image size, all integer coordinates and weights", "Tests bin one stored example; coordinates at or outside the border and transposed coordinates are not reached.",
     [CPP + "data_treatment.cpp", CPP + "libtomo.cpp"], [("make_phase_space", CPP + "data_treatment.cpp")], "make_phase_space under contract; floats as reals; wrapper at run time")
prop("P08", "Multi-bunch reconstruction treats every bunch like the single one",
     "With several bunch centres, every bunch's particles are shifted by its centre, back projected and projected together with the others, and particles that at any profile leave their bunch's cut window keep zero weight. "
     "Compensation, normalisation, clipping and the error when no weight is left are as for one bunch, the total discrepancy covers all bins, and the per-bunch discrepancies cover exactly the bins of each bunch's window in every profile.",
     ["inputs"], "every number of bunches, centres, cut windows, particles, profiles, bins and iterations", "The existing tests cover one configuration of equal windows.",
     [CPP + "reconstruct.cpp", CPP + "libtomo.cpp", PK + "tomography/tomography.py"], [("reconstruct_multi and the *_multi helpers, create_mask", CPP + "reconstruct.cpp")],
     "all functions under contract except the copying of the per-bunch discrepancies into the result (run time only); floats as reals")

PT = "contract-based deductive verification of the Python source (symbolic execution of the function's syntax tree over symbolic arrays, verification conditions discharged by z3), run-time evaluation of the same contracts for failing inputs"
NUMPY = "floats as reals; numpy/scipy by assumed contracts; run-time contracts sample the rest"
prop("P09", "Raw data become exactly the selected frames and bins",
     "From a one-dimensional measurement of a given number of frames and bins, the waterfall holds, in order, every frame after the skipped ones with the bins between the skipped start and the skipped end, and it shares no memory with the raw data. "
     "A measurement of any other length, and a description that skips all frames or all bins, has negative skips or a rebinning factor below one, is refused with an error.",
     ["inputs"], "every number of frames and bins, every number of skipped frames and bins, all raw data", "The tests use one file; skipping at the end, at the start and of frames interact.",
     [PK + "utils/tomo_input.py", PK + "assertions.py"], [("Frames.to_waterfall, Frames.raw_data, nprofs, nbins", PK + "utils/tomo_input.py"), ("assert_frame_inputs", PK + "assertions.py")],
     "the functions under contract for all sizes; " + NUMPY, technique=PT)
prop("P10", "Rebinning sums neighbouring bins and rescales the axes",
     "Rebinning by a factor returns, for every profile, bins that are the sums of that many consecutive old bins; a remainder becomes one more bin, the mean of the last full bin and the remainder scaled to a full bin. "
     "The bin width is multiplied and the synchronous position divided by the factor, and the waterfall handed in is not modified.",
     ["inputs"], "every number of profiles and bins, every factor not larger than the number of bins, all waterfalls of integers or floats", "Tests use one size; the remainder depends on the size and the factor.",
     [PK + "data/pre_process.py", PK + "data/data_treatment.py"], [("rebin, _rebin_dividable, _rebin_individable, _rebin_last", PK + "data/pre_process.py")],
     "rebin and its helpers under contract for all sizes; " + NUMPY, technique=PT)
prop("P11", "Exactly the particles that leave the image are removed",
     "Filtering tracked particles keeps, in order and with unchanged coordinates, exactly the particles whose horizontal coordinate lies in the image at every profile, and reports how many were removed; undefined coordinates count as outside. "
     "If none is left an error is raised. Preparing for the reconstruction returns the kept particles as integer bins with particles and profiles exchanged, so every coordinate is a valid bin.",
     ["inputs"], "every number of particles, profiles and image width, all coordinates", "Tests filter a handful of points; a particle may leave at any profile and at either edge.",
     [PK + "tracking/particles.py", PK + "assertions.py"], [("filter_lost, ready_for_tomography", PK + "tracking/particles.py"), ("assert_only_valid_particles", PK + "assertions.py")],
     "the functions under contract for all sizes; " + NUMPY, technique=PT)
prop("P12", "The reconstruction object accepts only consistent data and keeps it",
     "Creating a reconstruction clips negative samples, normalises every profile to one, leaves the measured waterfall alone and fails if nothing positive is left. Coordinates are accepted if and only if they have one column per profile (and vertical ones the shape of the horizontal ones) and lie inside the image; rejected ones leave the object unchanged. "
     "Running hands exactly these data to the compiled reconstruction and stores its weights, recreated waterfall and discrepancies.",
     ["inputs", "histories"], "every waterfall, all coordinates and every order of assignments", "Tests set valid data once; borders of the image, wrong shapes and repeated assignment are not covered.",
     [PK + "tomography/__tomography.py", PK + "tomography/tomography.py"], [("TomographyABC properties and helpers", PK + "tomography/__tomography.py"), ("Tomography.run", PK + "tomography/tomography.py")],
     "constructor, setters, helpers and the call of the compiled routine under contract; " + NUMPY, technique=PT)
prop("P13", "Image bins and physical coordinates are inverse to each other",
     "A particle placed at an image position of the reconstructed profile gets the phase and energy that the image axes assign to it at the turn of that profile, and converting tracked phases and energies to image coordinates uses for every profile the synchronous phase and revolution frequency of that profile's turn. "
     "Converting a position to physical coordinates and back at the same turn restores it, and arrays of different shapes are refused.",
     ["inputs"], "every number of particles and profiles, every turn, all machine parameters", "Tests compare stored numbers for one machine; using the value of a neighbouring turn or profile is invisible when they are constant.",
     [PK + "tracking/particles.py"], [("physical_to_coords, _bin_nr_to_physical_coords", PK + "tracking/particles.py")], "both functions under contract, the round trip as a lemma over the code; " + NUMPY, technique=PT)
prop("P14", "The initial particles fill exactly the reconstruction area",
     "The homogeneous distribution has exactly one particle at every sub-bin point of every cell between the energy limits of every column of the reconstruction area, and no other, placed with the phase and energy of the turn asked for. "
     "The limits lie inside the image, follow the lowest trajectory through either end of the image at both edges of a column at the turn of the first reconstructed profile, mirror each other about the synchronous energy, and the columns lie inside the given time window. "
     "A given energy range spans the upper half of the image, otherwise the bins are matched to the bucket; areas without size are refused with an error.",
     ["inputs"], "every image size, sub-bin number, window, machine and turn, one or two harmonics", "Tests compare stored limits and points of one machine; full images, windows, other reference profiles and borders of the image are not covered.",
     [PK + "tracking/phase_space_info.py", PK + "tracking/particles.py"],
     [("PhaseSpaceInfo (all methods)", PK + "tracking/phase_space_info.py"), ("Particles.homogeneous_distribution", PK + "tracking/particles.py")],
     "every method of PhaseSpaceInfo and the homogeneous distribution under contract for all sizes; completeness of the points by lemmas on positions on a grid; heights as real roots; " + NUMPY, technique=PT)
prop("P15", "The turn-by-turn machine values are one consistent model",
     "At every turn the synchronous phase solves the balance of that turn's voltages with the field ramp, the total energy differs from that of the previous turn by the charge times the voltage at that turn's synchronous phase, and time differs by one revolution at the previous turn's velocity, with time zero at the reference turn. "
     "With programs of momentum, voltage and phase the same values follow from the interpolated programs. Velocity, phase slip, drift, revolution frequency, voltages and energy change per turn are functions of these values at the same turn.",
     ["inputs"], "all machine parameters and programs, every reference turn, both signs of the charge, one or two harmonics", "Tests compare stored numbers for one machine whose reference turn is the first; a value taken from the neighbouring turn is invisible for slow ramps.",
     [PK + "tracking/machine.py", PK + "tracking/programs_machine.py", PK + "utils/physics.py"],
     [("Machine.values_at_turns, ProgramsMachine.values_at_turns, ProgramsMachine.find_synchronous_phase", PK + "tracking/machine.py")],
     "Machine.values_at_turns with all callees inlined (both loops, induction over the turns), ProgramsMachine.values_at_turns and find_synchronous_phase under contract; Newton's method assumed to return a root; "
     "the cutting of a momentum program into turns at run time only; " + NUMPY, technique=PT)
prop("P16", "The physics formulas are the documented ones and the derivatives match",
     "Voltages, bunch-limit function, relativistic velocity, total energy from the magnetic field, phase slip, drift coefficient and revolution frequency equal their documented formulas at the turn asked for, for both kinds of machine description. "
     "Every derivative used for root finding is the derivative of the function it is used with, and the search interval of the synchronous phase depends only on the sign of the charge times the field ramp and of the phase slip.",
     ["inputs"], "all machine parameters, phases and turns, both signs of the charge, one or two harmonics, constant or programmed second-harmonic phase", "Tests compare stored numbers at few points; a wrong derivative only slows or redirects root finding.",
     [PK + "utils/physics.py"], [("rf_voltage*, drf_voltage*, rfvolt_rf1*, phase_low_mch, dphase_low_mch, lorentz_beta, b_to_e, phase_slip_factor, find_dphase, revolution_freq, find_phi_lower_upper", PK + "utils/physics.py")],
     "every listed formula under contract; sine, cosine, root uninterpreted; " + NUMPY, technique=PT)
prop("P17", "Invalid machine and array inputs are rejected, valid ones never",
     "Each input check raises the requested error if and only if its condition is violated by the value or by at least one array element, at the limit itself as documented. "
     "The machine parameters are accepted if and only if every required one is present and in its range, including the range of reconstructed profiles and its step, and an index is accepted if and only if it addresses an element, negative ones only when wrapping is allowed.",
     ["inputs"], "all values, limits and array sizes", "Tests try single values on either side, rarely the limit itself or an error in one element only.",
     [PK + "assertions.py"], [("assert_*", PK + "assertions.py")], "every check under contract; " + NUMPY, technique=PT)
prop("P19", "Measured profiles give the documented charge and self fields",
     "Profiles accept a waterfall if and only if it has the machine's number of profiles and a positive sample, clip negative samples, and set the machine's number of bins and energy centre. The charge is the sum of the reference profile times the sampling time over elementary charge and sensitivity. "
     "Self fields need the charge and filtered profiles of the waterfall's shape; the phase wrap is the smallest whole number of periods covering the image, and the field of an interval is the mean of both profiles' fields inside the image and zero outside.",
     ["inputs"], "every waterfall, number of profiles, bins and turns, all machine parameters", "The tests use one data set.",
     [PK + "data/profiles.py", PK + "utils/physics.py"], [("Profiles", PK + "data/profiles.py"), ("calc_self_field_coeffs", PK + "utils/physics.py")],
     "the methods under contract; the default filter only at run time; " + NUMPY, technique=PT)
prop("P20", "Tracking starts from the right particles, machine values and profile",
     "A tracker is created if and only if the machine has its turn-by-turn values and a synchronous particle. Tracking accepts every existing profile (negative counted from the end) and a turn offset inside the measurement only, hands the machine's values and the voltages times the charge to the compiled tracking, and modifies neither machine nor given particles. "
     "The phase-space image uses coordinates and weights of the chosen profile, with axes centred on the synchronous particle.",
     ["inputs"], "every number of profiles, turns, particles, every profile index and offset", "Tests track one profile of one machine.",
     [PK + "tracking/tracking.py", PK + "tracking/__tracking.py", PK + "data/data_treatment.py"],
     [("Tracking.track", PK + "tracking/tracking.py"), ("ParticleTracker", PK + "tracking/__tracking.py"), ("phase_space", PK + "data/data_treatment.py")],
     "the methods under contract; " + NUMPY, technique=PT)
prop("P21", "Cutting a waterfall keeps exactly the bins between the cuts",
     "Cutting returns, for every profile, the bins from the left cut up to but excluding the right cut, a negative right cut counted from the end, and does not modify the input. An error is raised if and only if the left cut is negative, the right cut lies outside the waterfall, or no bin would be left.",
     ["inputs"], "every waterfall and every pair of cuts", "Tests try few cuts; negative and limiting values are easily off by one.",
     [PK + "data/pre_process.py"], [("cut_waterfall", PK + "data/pre_process.py")], "cut_waterfall under contract for all sizes; " + NUMPY, technique=PT)

NA = [
    ("P90", "GPU routines agree with the CPU routines", "The CUDA kernels need a GPU and cupy, which are not in this sandbox; no verifier here reads CUDA."),
]

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in A:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                    anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
        for i, t, r in NA:
            f.write(json.dumps(dict(id=i, title=t, statement=t + " on every input.", quantifier=dict(over=["inputs"], text="all inputs"), why_tests_cant="Not reached by the tests.",
                                    anchors=dict(files=["longitudinal_tomography/cuda_kernels"], mechanism=[]))) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="true",
                       checks=[dict(property=p["id"], quick_cmd=f"python3-vt check.py {p['id']} --tier quick", thorough_cmd=f"python3-vt check.py {p['id']} --tier thorough",
                                    technique=p["technique"], level=p["level"], level_note=p["note"]) for p in A],
                       not_applicable=[dict(property=i, reason=r) for i, t, r in NA],
                       notes="No hooks in /repo. Checks build scratch copies under a temporary directory and leave /repo untouched."), f, indent=1)
        f.write("\n")
