"""Which translation units make up each harness, which library sources they need, and which harness runs decide which property."""
U = "CPPQEDutils/"; C = "CPPQEDcore/"; E = "CPPQEDelements/"
LIBS = {
    "utils": [U + f for f in ("FuzzyDouble.cc", "Random.cc", "FormDouble.cc", "FFT.cc", "Trajectory.cc", "BooleanNegatedProxy.cc", "KeyPrinter.cc",
                              "ComplexArrayExtensions.cc", "DrivenDampedHarmonicOscillator.cc", "CMatrix.cc", "MathExtensions.cc", "Pars.cc")],
    "data": [C + f for f in ("quantumdata/DistributionFunctions.cc", "quantumdata/LazyDensityOperatorFFT.cc")],
    "ops": [C + f for f in ("quantumoperator/Tridiagonal.cc", "quantumoperator/Sigma.cc")],
    "struct": [C + f for f in ("structure/ElementAveraged.cc", "structure/DynamicsBase.cc")],
    "traj": [C + f for f in ("quantumtrajectory/EvolutionMethod.cc", "quantumtrajectory/MCWF_TrajectoryLogger.cc", "high/QM_Picture.cc")],
    "binary": [C + "composites/BinarySystem.cc"],
    "mode": [E + f for f in ("frees/Mode.cc", "frees/ParsMode.cc")],
    "qbit": [E + f for f in ("frees/Mode.cc", "frees/ParsMode.cc", "frees/Qbit.cc")],
    "frees": [E + f for f in ("frees/HomodynedMode.cc", "frees/ParsMode.cc", "frees/PumpedTwoLevelAtom.cc", "frees/Qbit.cc", "frees/ParsParticle.cc", "frees/Particle.cc",
                              "frees/Mode.cc", "frees/TimeIndependentMatrixHamiltonian.cc", "frees/BichromaticMode.cc", "frees/Spin.cc", "utils/ModeFunction.cc")],
    "inter": [E + f for f in ("interactions/CoupledModes.cc", "interactions/ParticleTwoModes.cc", "interactions/ParticleCavity.cc", "interactions/QbitModeCorrelations.cc",
                              "interactions/GeneralDicke.cc", "interactions/ParsParticleCavity.cc", "interactions/ModeCorrelations.cc", "interactions/JaynesCummings.cc")],
    "modefunction": [E + "utils/ModeFunction.cc"],
}
HARNESSES = {
    "c06": dict(tus=["c06_slices.cc"], libs=[]),
    "c01": dict(tus=["c01_mock.cc"], libs=["utils"]),
}
PROPS = {
    "C01": dict(runs=[dict(harness="c01", quick=15, thorough=300)],
                rule="a case is a random run setting (mode, end, interval, frequencies, start, precision, file or not) with random adaptive steps; distinct = distinct setting"),
    "C06": dict(runs=[dict(harness="c06", quick=60, thorough=4000)],
                rule="a case is a random array shape, storage order, base and retained-axes choice; distinct = distinct (axes choice, shape, order); trivial single-element arrays are not counted"),
}
HARNESSES["c05"] = dict(tus=["c05_ode.cc"], libs=["utils"])
PROPS["C05"] = dict(runs=[dict(harness="c05", quick=80, thorough=4000)],
    rule="a case is a random initial-value problem with tolerances, initial step and interval sequence; distinct = distinct (problem kind, pattern of limited/free steps)")
HARNESSES["c07"] = dict(tus=["c07_states.cc"], libs=["utils", "data"])
PROPS["C07"] = dict(runs=[dict(harness="c07", quick=80, thorough=2400)],
    rule="a case is a random state/operator of random dimensions put through all operations, or a random history of copies, moves, references, assignments and updates; distinct = distinct dimensions or history")
HARNESSES["c08"] = dict(tus=["c08_reduce.cc"], libs=["utils", "data"])
HARNESSES["c09"] = dict(tus=["c09_measures.cc"], libs=["utils", "data"])
HARNESSES["c10"] = dict(tus=["c10_fft.cc"], libs=["utils", "data"])
PROPS["C08"] = dict(runs=[dict(harness="c08", quick=60, thorough=2400)], rule="a case is a random pure state and a random Hermitian operator reduced to a choice of kept axes; distinct = distinct (rank, axes, dimensions)")
PROPS["C09"] = dict(runs=[dict(harness="c09", quick=60, thorough=2400)], rule="a case is a random state (pure, mixed, low-rank, product or Werner-like) and bipartition; distinct = distinct (dimensions, partition, kind)")
PROPS["C10"] = dict(runs=[dict(harness="c10", quick=30, thorough=1000)], rule="a case is a random vector and operator with a choice of transformed axes; distinct = distinct (rank, axes, dimensions)")
HARNESSES["c11"] = dict(tus=["c11_ops.cc"], libs=["utils", "data", "ops"])
PROPS["C11"] = dict(runs=[dict(harness="c11", quick=60, thorough=2500)], rule="a case is a random expression tree (construction, frequencies, sums, products, conjugation, scaling, propagation) or a projector product; distinct = distinct tree over distinct dimensions and offsets")
HARNESSES["c12"] = dict(tus=["c12_mode.cc", "c12_other.cc"], libs=["utils", "data", "ops", "struct", "traj", "frees"])
PROPS["C12"] = dict(runs=[dict(harness="c12", quick=25, thorough=1500)], rule="a case is a random element (family, picture, truncation, parameters) probed by acting on basis and random states; distinct = distinct (family, picture, truncation, which parameters vanish)")
HARNESSES["c13"] = dict(tus=["c13.cc"], libs=["utils", "data", "ops", "struct", "traj", "frees", "inter"])
PROPS["C13"] = dict(runs=[dict(harness="c13", quick=25, thorough=1500)], rule="a case is a random interaction (class, coupling constants, mode functions) on random elements (family, picture, truncation), acted with on basis and random states; distinct = distinct (class, dimensions, pictures, mode functions)")
HARNESSES["c14"] = dict(tus=["c14.cc"], libs=["utils", "data", "ops", "struct", "traj", "binary", "frees", "inter"])
PROPS["C14"] = dict(runs=[dict(harness="c14", quick=25, thorough=1500)], rule="a case is a random network: dimensions, subset of interfaces per element, time-dependent ingredients, leg assignment; distinct = distinct (dimensions, interfaces of every part, legs)")
HARNESSES["c15"] = dict(tus=["c15.cc"], libs=["utils", "data", "ops", "struct", "traj"])
PROPS["C15"] = dict(runs=[dict(harness="c15", quick=12, thorough=600)], rule="a case is a random Lindblad system (dimensions, picture, jumps with or without superoperator, time dependence) evolved with random tolerance; distinct = distinct (dimensions, interfaces, purity)")
HARNESSES["c17"] = dict(tus=["c17.cc"], libs=["utils", "data", "ops", "struct", "traj"])
PROPS["C17"] = dict(runs=[dict(harness="c17", quick=12, thorough=500)], rule="a case is a random Lindblad system in a random picture with random step and jump-probability limits, each step replayed with the random number it drew; distinct = distinct (dimensions, interfaces, whether stepped back, whether jumped)")
HARNESSES["c16"] = dict(tus=["c16.cc"], libs=["utils", "data", "ops", "struct", "traj", "binary", "frees", "inter"])
PROPS["C16"] = dict(runs=[dict(harness="c16", quick=8, thorough=500)], rule="a case is a random physical system built in several pictures, compared instantaneously and through whole evolutions with dictated jumps; distinct = distinct (system, parameters)")
HARNESSES["c18"] = dict(tus=["c18.cc"], libs=["utils", "data", "ops", "struct", "traj"])
PROPS["C18"] = dict(runs=[dict(harness="c18", quick=1, thorough=30)], rule="a case is a random Lindblad system with a random number of trajectories, seeds, streams and intervals; distinct = distinct (dimensions, interfaces, number of trajectories)")
HARNESSES["c02"] = dict(tus=["c02.cc"], libs=["utils", "data", "ops", "struct", "traj"])
PROPS["C02"] = dict(runs=[dict(harness="c02", quick=3, thorough=60)], rule="a case is a trajectory of a random kind and system, run with a random schedule to files and stopped (or cut off after any saved state) and resumed by fresh objects; distinct = distinct (kind, system, schedule)")
HARNESSES["c03"] = dict(tus=["c03.cc"], libs=["utils", "data", "ops", "struct", "traj"])
PROPS["C03"] = dict(runs=[dict(harness="c03", quick=6, thorough=200)], rule="a case is a trajectory of a random kind and system faced with state files of every other kind, rank, element type, dimension, cut at random bytes, empty or missing, as initial condition and on resuming; distinct = distinct (kind, system, schedule)")
HARNESSES["c19"] = dict(tus=["c19.cc"], libs=["utils"])
PROPS["C19"] = dict(runs=[dict(harness="c19", quick=20, thorough=1500)], rule="a case is an engine of every kind with random seed and history, saved, damaged, restored into other instances, used to fill arrays, or a family of streams; distinct = distinct (engine, history length class, distribution, shape rank)")
HARNESSES["c04"] = dict(tus=["c04.cc"], libs=["utils", "data", "ops", "struct", "traj", "frees", "inter"])
PROPS["C04"] = dict(runs=[dict(harness="c04", quick=25, thorough=600)], rule="a case is a random set of parameter bundles with random modifiers and a random command line (valid, or wrong in one place, parsed in a child process); distinct = distinct (bundles, modifiers, number of parameters given)")
HARNESSES["c22"] = dict(tus=["c22.cc"], libs=["utils", "data", "modefunction"])
PROPS["C22"] = dict(runs=[dict(harness="c22", quick=300, thorough=15000)], rule="a case is a random argument (or shape, or text) of one of the utilities; distinct = distinct (utility, argument class)")
HARNESSES["c21"] = dict(tus=["c21.cc"], libs=["utils", "data", "ops", "struct", "traj", "binary", "frees", "inter"])
PROPS["C21"] = dict(runs=[dict(harness="c21", quick=40, thorough=3000)], rule="a case is a number formatted in every way, a key, a text through commenting streams, or a whole run of a random real system whose table is read back and compared with the values the run returned; distinct = distinct (system, trajectory kind, mode, precision, header, measures)")
HARNESSES["c23"] = dict(tus=["c23.cc"], libs=["utils", "data", "ops", "struct", "traj", "binary", "frees", "inter"], scripts=dict(
    script_mode="PumpedLossyMode_C++QED.cc", script_modeEvolved="PumpedLossyMode_Evolved.cc", script_ptla="PTLA_C++QED.cc", script_ptlaEvolved="PTLA_Evolved.cc", script_ptlaEvolvedHL="PTLA_EvolvedHL.cc",
    script_qbit="PumpedLossyQbit.cc", script_jc="QbitMode_C++QED.cc", script_jcMatrix="QbitMode_Matrix.cc", script_jcEvolved="QbitMode_Evolved.cc", script_spin="Spin.cc", script_raman="Raman.cc", script_opto="Optomechanics.cc",
    script_fourModes="FourModes.cc", script_particle="SingleParticle.cc", script_particleMode="1particle1mode.cc", script_homodyned="HomodynedMode.cc", script_tutorialMode="tutorialMode.cc"))
PROPS["C23"] = dict(runs=[dict(harness="c23", quick=40, thorough=600)], rule="a case is a program of CPPQEDscripts run in a child process with a random command line (physics, method, picture, schedule, stopped and resumed or not) whose table is compared with an independent dense solution, or a call of the driver; distinct = distinct (program, method, picture, schedule)")
HARNESSES["c24"] = dict(tus=["c24.cc"], libs=["utils", "data"])
PROPS["C24"] = dict(runs=[dict(harness="c24", quick=200, thorough=1500)], rule="a case is a random state (number, coherent, cat, random pure or mixed) in every representation with its distribution functions evaluated at random points, over the whole plane, or mapped on a random grid; distinct = distinct (state kind, dimension, cutoff, axes)")
SAN = dict(c01=1, c02=.3, c03=.5, c04=1, c05=2, c06=2, c07=4, c08=3, c09=3, c10=2, c11=3, c12=1, c13=1, c14=1, c15=.5, c16=.3, c17=.5, c18=.1, c19=1, c21=1, c22=10, c24=5)
VG = dict(c01=.1, c02=.05, c03=.1, c04=.3, c05=.3, c06=.3, c07=1, c08=.3, c09=.5, c10=.1, c11=.4, c12=.3, c13=.3, c14=.3, c15=.15, c16=.1, c17=.15, c18=.02, c19=.3, c21=.3, c22=1, c24=.3)
PROPS["C20"] = dict(runs=[dict(harness=h, variant="san", quick=q, thorough=q * 40, ignore_violations=True, **(dict(thorough_only=True) if h == 'c16' else {})) for h, q in SAN.items()] +
                         [dict(harness=h, variant="vg", quick=q, thorough=q * 30, ignore_violations=True, **(dict(thorough_only=True) if h in ('c16', 'c18') else {})) for h, q in VG.items()],
    rule="a case of any other harness (every part of the library, hostile arguments and error paths included) executed under AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer with the bounds checks of blitz++ and of the standard library on, or under valgrind memcheck; distinct = as there")
