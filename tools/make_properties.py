import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","Runs are sampled on the requested schedule and end exactly at the requested time",
"A run driven by end time, by output interval, by number of intervals or by number of adaptive steps never advances past the requested end, finishes at it to rounding accuracy, and prints one data line for exactly the requested instants: the start, every interval (or every so-many steps), and the end, with no line duplicated or skipped. Printed and returned time, last-timestep and observable values are those of the evolved object at that instant, full states are saved at the requested multiple of the printed lines plus once at the end, and automatic stopping happens at the first line that is within the tolerance of the average of the preceding requested number of lines, and only then. Advancing an object by an interval, or to a time, takes it exactly there irrespective of how the adaptive stepper divides the interval.",
["configurations","inputs","histories"],"every combination of run mode, interval, end time, initial time, state-saving frequency, first-line/first-state switches, autostop setting and every adaptive-step sequence the stepper may produce",
"The only baseline tests that run trajectories compare a harmonic oscillator against its solution for a single setting; no test looks at which lines are printed, at overshoot, state-saving frequency, or autostop.",
["CPPQEDutils/Trajectory.h","CPPQEDutils/Simulated_.h","CPPQEDutils/StochasticTrajectory.h"],
[("generic run loop","CPPQEDutils/Trajectory.h run()"),("advance/advanceTo","CPPQEDutils/Trajectory.h advance()"),("autostop","CPPQEDutils/Trajectory.h AutostopHandlerGeneric")],
["printed trajectory table","returned array","state file","step calls on the evolved object"])

p("C02","A run that is saved and resumed is the same as one that was never stopped",
"Saving an evolved object and restoring it reproduces its time, timestep, full state, integrator step-size state, random-engine state and log bit for bit, so that a run stopped at any output instant and resumed from its files continues with exactly the values the uninterrupted run would have produced. Resuming picks up the last state in the file, appends to existing output without repeating the line already there, and leaves earlier states readable in order. Every save/restore round trip of arrays, state vectors, density operators and random engines is lossless, also when an externally produced array-only file is used as initial condition.",
["histories","configurations","inputs"],"every trajectory kind (ODE, master equation, single and ensemble Monte-Carlo), every stop point, chain of resumptions and state content",
"The continuation tests of the repository are not part of the offline suite; they compare two single runs to a tolerance and cannot see a field missing from the archive that happens not to matter in those runs.",
["CPPQEDutils/Trajectory.h","CPPQEDutils/Trajectory.cc","CPPQEDutils/ODE.h","CPPQEDutils/Archive.h","CPPQEDutils/Simulated_.h","CPPQEDutils/StochasticTrajectory.h","CPPQEDcore/quantumtrajectory/Master.h","CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h","CPPQEDutils/Random.h"],
[("state I/O of each trajectory","stateIO()"),("framed archive in .state file","CPPQEDutils/Trajectory.h readViaSStream/writeViaSStream"),("continuation branch","CPPQEDutils/Trajectory.h run()")],
["state file bytes","output table of continued run","restored object"])

p("C03","A state file that does not belong to the run is refused, never silently absorbed",
"Starting or resuming from a file holding another kind of trajectory, another rank, another element type, other dimensions, or a record that was cut short (as after a crash while saving), or from a missing file, ends in an exception naming the problem. In that case nothing is appended to the output and state files already on disk.",
["crash_points","fault_sequences","configurations"],"every truncation point of a saved record, every mismatched pairing of saved object and reader, every missing or empty file",
"No test feeds a wrong or damaged state file; a crash can leave the file cut at any byte.",
["CPPQEDutils/Trajectory.h","CPPQEDutils/Trajectory.cc","CPPQEDutils/Simulated_.h","CPPQEDcore/quantumtrajectory/Master.h","CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h"],
[("metadata comparison","CPPQEDutils/Trajectory.h ReadState"),("dimension check on array load","CPPQEDcore/quantumtrajectory/Master.h stateIO, MCWF_Trajectory.h stateIO"),("file opening","CPPQEDutils/Trajectory.cc")],
["exception","bytes of output and state files before and after"])

p("C04","Command-line options set exactly what they name, or the program stops",
"After parsing, each option given on the command line holds exactly the value given, every other parameter keeps its default, and the program's own references see that value; options are matched by full name, including the modifier that distinguishes several instances. An unknown option, a value that cannot be read in full as the parameter's type, a missing value, or adding or requesting a name twice/never declared is reported as an error rather than ignored. The recorded command line reproduces the arguments in order, and the help listing shows every declared parameter with its description and default.",
["inputs","configurations"],"every set of declared parameters (types, modifiers, titles) and every argument vector",
"No baseline test parses a command line.",
["CPPQEDutils/Pars.h","CPPQEDutils/Pars.cc","CPPQEDutils/BooleanNegatedProxy.h","CPPQEDutils/FormDouble.h","CPPQEDcore/high/QM_Picture.h","CPPQEDcore/quantumtrajectory/EvolutionMethod.cc"],
[("parameter table","CPPQEDutils/Pars.h Table"),("parser","CPPQEDutils/Pars.cc update()")],
["values of the parameter references","exceptions","help/recorded command line text"])

p("C05","Adaptive integration honours tolerances and never steps past its limit",
"For both integrator back ends, a step never moves time by more than the interval it is given and never by zero, the reported last step is exactly the time difference, and the solution of any smooth initial-value problem converges to the true solution with a global error controlled by the requested relative and absolute tolerances (each tolerance acting in its own role), tighter tolerances giving smaller errors. A step whose estimated error exceeds the tolerance is never accepted, the proposed next step size survives a step shortened to less than a tenth of it by the interval limit, and the logged numbers of steps, failures and derivative evaluations equal what happened.",
["inputs","configurations","histories"],"every smooth right-hand side, tolerance pair, initial step and interval partition, forward in time, complex or real state of any size",
"The baseline compares two hand-picked equations at default settings.",
["CPPQEDutils/ODE.h","CPPQEDutils/ODE_GSL.h","CPPQEDutils/Simulated_.h"],
[("step with time limit and dtTry bookkeeping","CPPQEDutils/ODE.h Base::step"),("GSL controlled stepper","CPPQEDutils/ODE_GSL.h"),("stepper factories","CPPQEDutils/ODE.h MakeControlledErrorStepper")],
["time, dtDid, dtTry after each step","derivative calls","solution vs closed form"])

p("C06","Slicing visits every slice of a multi-array exactly once, in place and in order",
"For an array of any rank, extents, memory layout and retained-axes choice, iterating over slices yields exactly one slice per combination of the remaining indices, in row-major order of those indices, each with the retained axes in the order asked for, and aliasing (never copying) the original storage so that writes reach the right elements and no others. The same holds for multi-index iteration over any rectangular range, and for row/column slices of a matrix-like array of doubled rank.",
["inputs","configurations"],"every rank, shape, stride order, choice and order of retained axes",
"Tests look at a few fixed shapes with C storage order.",
["CPPQEDutils/SliceIterator.h","CPPQEDutils/SliceIterator.tcc","CPPQEDutils/MultiIndexIterator.h","CPPQEDutils/VectorFromMatrixSliceIterator.h"],
[("index transposition and slicing","CPPQEDutils/SliceIterator.tcc"),("offset tables","CPPQEDutils/SliceIterator.h SlicesData"),("multi-index increment","CPPQEDutils/MultiIndexIterator.h")],
["addresses and values seen through each slice"])

p("C07","State vectors and density operators obey linear algebra and value semantics",
"Sums, scalar multiples, inner products, norms, renormalisation, direct products, dyadic products, matrix views, index access and Hermitian conjugation of state vectors and density operators of any rank agree with ordinary linear algebra on the flattened vectors and matrices. Copies own independent storage, moves and by-reference construction share it, assignment changes the value of the target only, and packing a density operator into a real array and unpacking it is the identity.",
["inputs","programs"],"every rank, dimension and value, every sequence of copy, move, assign and arithmetic operations",
"The baseline only exercises these types indirectly on a handful of fixed states.",
["CPPQEDcore/quantumdata/StateVector.h","CPPQEDcore/quantumdata/DensityOperator.h","CPPQEDcore/quantumdata/ArrayBase.h","CPPQEDutils/BlitzArrayExtensions.h","CPPQEDutils/ComplexArrayExtensions.h","CPPQEDutils/CMatrix.cc"],
[("StateVector","CPPQEDcore/quantumdata/StateVector.h"),("DensityOperator","CPPQEDcore/quantumdata/DensityOperator.h"),("direct product / Hermitian conjugation","CPPQEDutils/ComplexArrayExtensions.h")],
["element values","storage identity"])

p("C08","Reduced states are the true partial traces, for pure and mixed states alike",
"Anything evaluated through the lazy density-operator view (matrix elements, diagonals, reduced density operators and functions averaged over slices) is the same whether the state is given as a vector or as the corresponding density operator, and equals the textbook partial trace over the axes left out, with the kept axes in the requested order, for any partition. Reduction preserves trace, is linear, and converting a lazy view to a full density operator and packing it into a real list and back loses nothing.",
["inputs","configurations"],"every rank, dimension, subset of kept axes, and state",
"The baseline evaluates the purity of a few partial traces only.",
["CPPQEDcore/quantumdata/LazyDensityOperator.h","CPPQEDcore/quantumdata/DensityOperator.h","CPPQEDcore/quantumdata/StateVector.h"],
[("partialTrace","CPPQEDcore/quantumdata/LazyDensityOperator.h"),("reduce","CPPQEDcore/quantumdata/DensityOperator.h, LazyDensityOperator.h"),("deflate/inflate","CPPQEDcore/quantumdata/")],
["matrix elements of the reduced operator"])

p("C09","Entropy, purity, mutual information and negativity have their defining values",
"For every normalised state and every bipartition, the reported negativity of the partial transpose, von Neumann entropy, purity and mutual information equal their definitions evaluated from the spectrum, so that they are invariant under local unitaries, symmetric between the two parties, zero negativity and mutual information on product states, and within their theoretical bounds.",
["inputs","configurations"],"every pure or mixed state, dimensions, rank and choice of the transposed subsystem",
"Tests use a few fixed states of two subsystems.",
["CPPQEDcore/quantumdata/EntanglementMeasures.h","CPPQEDcore/quantumdata/DensityOperator.h"],
[("negPT, entropy, mutualInformation, purity","CPPQEDcore/quantumdata/EntanglementMeasures.h")],
["returned measure vs independently computed spectrum"])

p("C10","Position/momentum Fourier transforms are unitary and mutually inverse",
"The forward and inverse transforms of vectors of any power-of-two length, and of any chosen axes of a state vector or density operator of any rank, equal the centred discrete Fourier transform (up to a constant sign fixed by the length), preserve norm/trace, undo each other, and touch no other axis; the transform of a pure state's density operator is the density operator of the transformed state.",
["inputs","configurations"],"every length, rank, choice of axes and content",
"The baseline has one fixed two-subsystem transform.",
["CPPQEDutils/FFT.cc","CPPQEDutils/FFT.tcc","CPPQEDcore/quantumdata/LazyDensityOperatorFFT.cc","CPPQEDcore/quantumdata/LazyDensityOperatorFFT.h"],
[("fft","CPPQEDutils/FFT.cc"),("ffTransform of vectors and operators","CPPQEDcore/quantumdata/LazyDensityOperatorFFT.*")],
["transformed elements vs direct sum"])

p("C11","Structured operators act exactly as the matrices they stand for",
"A tridiagonal operator built by any sequence of construction, scaling, addition, direct product and Hermitian conjugation adds to the derivative vector precisely what the corresponding full matrix would, at any time of the interaction picture: each matrix element carries the phase factor of its own declared frequency. Projector-like operators and their direct products, also with tridiagonals, do likewise, and incompatible dimensions or frequencies are refused.",
["programs","inputs"],"every expression tree over the operator constructors, dimensions, offsets and times",
"No baseline test evaluates these operators.",
["CPPQEDcore/quantumoperator/Tridiagonal.h","CPPQEDcore/quantumoperator/Tridiagonal.tcc","CPPQEDcore/quantumoperator/Tridiagonal.cc","CPPQEDcore/quantumoperator/Sigma.h","CPPQEDcore/quantumoperator/Sigma.cc"],
[("Tridiagonal arithmetic and apply","CPPQEDcore/quantumoperator/Tridiagonal.tcc"),("frequencies/propagation","Tridiagonal::propagate, furnishWithFreqs"),("Sigma and DirectProduct","CPPQEDcore/quantumoperator/Sigma.h")],
["effect on basis and random vectors"])

p("C12","Each free element implements the Hamiltonian, jumps and observables it documents",
"For every mode, qbit, spin, multi-level system and particle, with any legal parameters and truncation, the combined effect of its exact and Hamiltonian parts is the documented non-Hermitian Hamiltonian evolution, every jump operator and jump rate is the documented one with the non-Hermitian damping equal to half the sum of the rates (below the truncation edge, where heating leaves the space), and the reported averages and variances are those of the documented operators for pure and mixed states alike. Documented initial states (Fock, coherent, spin, wave packet, level superpositions) are normalised and have the documented moments.",
["inputs","configurations"],"every element class and factory outcome, parameter values, dimension and state",
"No baseline test evaluates any element.",
["CPPQEDelements/frees/Mode.cc","CPPQEDelements/frees/Mode_.h","CPPQEDelements/frees/Qbit.cc","CPPQEDelements/frees/Spin.cc","CPPQEDelements/frees/Particle.cc","CPPQEDelements/frees/MultiLevel.h","CPPQEDelements/frees/PumpedTwoLevelAtom.cc","CPPQEDelements/frees/TimeIndependentMatrixHamiltonian.cc","CPPQEDcore/structure/ElementLiouvillean.h","CPPQEDcore/structure/FreeExact.h"],
[("element classes","CPPQEDelements/frees/*"),("structure interfaces","CPPQEDcore/structure/{Hamiltonian,Exact,Liouvillean,Averaged}.h")],
["derivative vector, exact propagator, jumped vector, rates, averages vs dense operators"])

p("C13","Each interaction element implements the coupling it documents",
"For every interaction (Jaynes-Cummings, coupled modes, Dicke, particle-cavity, particle-two-modes, multi-level coupling) built on any legal free elements, in any picture, the derivative contributed equals the documented coupling operator on the joint space, taken to the interaction picture of the very elements it couples, is anti-Hermitian, and scales with its coupling constant (products of mode functions of moving particles: away from the momentum truncation edges). Correlation observables equal the corresponding expectation values.",
["inputs","configurations"],"every interaction class, parameters, picture, elements, times and states",
"No baseline test evaluates any interaction.",
["CPPQEDelements/interactions/JaynesCummings.cc","CPPQEDelements/interactions/JaynesCummings_.h","CPPQEDelements/interactions/CoupledModes.cc","CPPQEDelements/interactions/GeneralDicke.cc","CPPQEDelements/interactions/ParticleCavity.cc","CPPQEDelements/interactions/ParticleTwoModes.cc","CPPQEDelements/interactions/ModeCorrelations.cc","CPPQEDelements/interactions/QbitModeCorrelations.cc","CPPQEDelements/interactions/MLJC.h","CPPQEDelements/utils/ModeFunction.cc"],
[("interaction classes","CPPQEDelements/interactions/*")],
["derivative vector and averages vs dense operators on the product space"])

p("C14","A composite system is exactly the sum of its parts embedded in the product space",
"For a binary or general composite of any elements and any assignment of interaction legs, the Hamiltonian action, exact propagation, jump rates, jumps, superoperator action and averages are those of the constituents embedded on their own axes with identity elsewhere, each constituent contributing exactly once, with channels and data columns in the documented order (frees in order, then interactions). Inconsistent layouts (dimension mismatch, missing free) are refused at run time or compile time.",
["programs","configurations","inputs"],"every network of elements, leg assignment, mix of lossy/lossless and time-dependent/independent parts, time and state",
"Compile-fail tests only establish that some wrong layouts do not compile.",
["CPPQEDcore/composites/BinarySystem.h","CPPQEDcore/composites/BinarySystem.cc","CPPQEDcore/composites/Composite.h","CPPQEDcore/composites/Composite.tcc","CPPQEDcore/composites/SubSystem.h"],
[("BinarySystem","CPPQEDcore/composites/BinarySystem.cc"),("Composite","CPPQEDcore/composites/Composite.tcc"),("slicing","CPPQEDutils/SliceIterator.h")],
["derivatives, propagated, jumped vectors, rates, averages vs Kronecker products"])

p("C15","Master-equation evolution is the Lindblad flow: unit trace, Hermitian, positive",
"Evolving any density operator of any system by the master-equation driver stays within integration tolerance of the Lindblad semigroup generated by the system's Hamiltonian and jump operators, whichever way jumps are supplied (superoperator or jump operator); after each step it is Hermitian with unit trace, and it stays positive to tolerance. Systems whose exact propagation cannot be applied to a density operator are refused.",
["inputs","configurations","histories"],"every system, initial state, tolerance and sequence of step lengths",
"No baseline test evolves a density operator.",
["CPPQEDcore/quantumtrajectory/Master.h","CPPQEDcore/quantumtrajectory/QuantumTrajectory.h","CPPQEDcore/structure/Liouvillean.h"],
[("derivs and step","CPPQEDcore/quantumtrajectory/Master.h")],
["density operator after each step vs dense matrix exponential of the Liouvillian"])

p("C16","The choice of quantum-mechanical picture does not change the physics",
"The same physical system set up in the interaction, unitary-interaction or Schroedinger picture, alone or inside a composite, evolves to the same state and the same observables at every time, whatever the starting time, step division or truncation, and an interaction-picture request is turned into the unitary one where the full one cannot be used.",
["configurations","inputs","histories"],"every element with several pictures, parameter set, state, starting time and interval division",
"No baseline test compares pictures.",
["CPPQEDelements/frees/Mode.cc","CPPQEDelements/frees/Qbit.cc","CPPQEDelements/frees/Spin.cc","CPPQEDelements/frees/Particle.cc","CPPQEDelements/frees/MultiLevel.h","CPPQEDcore/structure/FreeExact.h","CPPQEDcore/quantumtrajectory/QuantumTrajectory.h","CPPQEDcore/high/QM_Picture.cc"],
[("exact part + transformed Hamiltonian","CPPQEDcore/structure/{Exact,FreeExact,TridiagonalHamiltonian}.h"),("t0 bookkeeping","CPPQEDcore/quantumtrajectory/*")],
["states evolved in each picture"])

p("C17","A Monte-Carlo trajectory evolves, jumps and steps as the method prescribes",
"Between jumps a single trajectory is the normalised solution of the non-Hermitian Schroedinger equation; in each step at most one jump happens, chosen by comparing one random number with the accumulated jump probabilities (rate times step) computed from the state, and the state afterwards is the normalised result of that channel's jump operator. With noise off no jump ever happens, the total jump probability of an accepted step stays below the overshoot limit and the next step is kept below the target, a rejected step leaves no trace, the norm is one after each step, and the jump log lists exactly the jumps that happened.",
["inputs","histories","configurations"],"every system, seed, step-control setting and history of jumps and rejected steps",
"The Monte-Carlo code is not even compiled by the offline suite.",
["CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h","CPPQEDcore/quantumtrajectory/MCWF_TrajectoryLogger.cc"],
[("step","CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h step()"),("logger","CPPQEDcore/quantumtrajectory/MCWF_TrajectoryLogger.*")],
["state, time and log after every step, random engine state"])

p("C18","Ensembles of trajectories average, reproducibly, to the master equation",
"The ensemble's state is the equal-weight average of its members' projectors, its observables those of that averaged state, each member is the single trajectory of its own seed/stream so that equal parameters give identical results and different ordinals independent ones, and the average converges to the master-equation solution as the number of members grows. All members are at the same time after each advance.",
["inputs","configurations","histories"],"every system, ensemble size, seed, stream ordinal and sampling schedule",
"Ensembles are not compiled by the offline suite, and a statistical statement cannot be settled by a sample.",
["CPPQEDutils/StochasticTrajectory.h","CPPQEDcore/quantumtrajectory/DensityOperatorStreamer.h","CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h","CPPQEDutils/Random.h"],
[("Ensemble","CPPQEDutils/StochasticTrajectory.h"),("AverageTrajectories","CPPQEDcore/quantumtrajectory/DensityOperatorStreamer.h"),("stream ordinals","CPPQEDutils/Random.h")],
["ensemble average vs members, vs master equation"])

p("C19","Random engines are reproducible and a saved engine resumes its sequence",
"For each supported random engine, equal seed (and stream) gives the same sequence, different streams differ, filling an array draws each element from the requested distribution in order, and saving an engine at any point and loading it into any other instance continues the sequence exactly where it was. Unreadable engine state is refused.",
["inputs","histories"],"every engine kind, seed, stream and save point",
"The random-engine serialization test is not built offline and checks one seed.",
["CPPQEDutils/Random.h","CPPQEDutils/Random.cc"],
[("engine wrappers and serialization","CPPQEDutils/Random.h")],
["draws before and after save/restore"])

p("C20","No library operation misuses memory or relies on undefined behaviour",
"Exercising any part of the library with legal inputs, including empty, minimal and maximal truncations, repeated construction and destruction in any order and error paths, never reads or writes outside live objects, never reads an uninitialised value that influences results, never leaks through an exception, and never performs an undefined arithmetic, enumeration or pointer operation.",
["inputs","programs","histories"],"every legal call sequence",
"Tests run uninstrumented on small fixed shapes where stray accesses go unnoticed.",
["CPPQEDutils","CPPQEDcore","CPPQEDelements"],
[("RAII arrays and pointers","whole library")],
["AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer, container-bounds and memcheck (uninitialised value) reports while all other workloads run"])

p("C21","Printed data tables are self-describing and faithful at the chosen precision",
"In every output the header key announces exactly the columns printed, numbered consecutively, in the order of subsystems; each printed number is the true value rounded to the requested number of digits, columns stay separated for every magnitude and sign, and every non-data line is commented so that the table can be parsed by any reader. Formatting does not alter the evolved object.",
["inputs","configurations"],"every system, precision and value magnitude",
"No baseline test looks at printed output.",
["CPPQEDutils/FormDouble.h","CPPQEDutils/FormDouble.cc","CPPQEDutils/KeyPrinter.cc","CPPQEDutils/CommentingStream.h","CPPQEDcore/structure/Averaged.h","CPPQEDcore/structure/ElementAveraged.cc","CPPQEDutils/Trajectory.h"],
[("FormDouble","CPPQEDutils/FormDouble.*"),("KeyPrinter","CPPQEDutils/KeyPrinter.*"),("CommentingStream","CPPQEDutils/CommentingStream.h")],
["text of header and data lines vs values"])

p("C22","Array and combinatorial utilities return the mathematically defined result",
"Concatenation and folding of sequences, tiny-vector composition, vector and matrix views, direct products and sums, Hermitian conjugation, combinations with repetition (each exactly once, with the right count, index and configuration inverse to each other), factorials and binomials, coherent-state coefficients, fuzzy comparison, the closed-form driven damped oscillator, mode functions and reading/writing of containers return the mathematically defined value across their whole domain, and report an error outside it (factorials out of range, unknown configurations, malformed text) instead of returning a wrong value.",
["inputs"],"every argument in the documented domain and its boundary",
"Tests cover a handful of small arguments.",
["CPPQEDutils/Combinatorics.h","CPPQEDutils/MathExtensions.cc","CPPQEDutils/MathExtensions.h","CPPQEDutils/BlitzTinyExtensions.h","CPPQEDutils/BlitzArrayExtensions.h","CPPQEDutils/Algorithm.h","CPPQEDelements/utils/ModeFunction.cc"],
[("utilities","CPPQEDutils/*")],
["return values vs independent computation"])
p("C23","Simulation programs compute the physics they name, by any method asked for",
"A program of CPPQEDscripts run from its command line prints, for every combination of physical parameters, evolution method (single trajectory, ensemble, master equation), quantum mechanical picture, output schedule, output destination and interruption with resumption, exactly the time instants asked for and the expectation values which the equation of motion of the named system prescribes at those instants; programs for amplitude and Bloch equations agree with the quantum programs where the physics coincides. The driver behind them (evolve, evolveMaster) is the run of exactly the trajectory that was named, with the parameters given, reporting on the partition named, printing and returning what was asked for, and leaving the evolved state in the initial condition given by the caller, also after resumption.",
["inputs","configurations","histories"],"every legal command line of every program that compiles",
"The baseline tests run no program with a reference solution; the Python test suite for scripts is not part of them.",
["CPPQEDcore/quantumtrajectory/Evolution_.h","CPPQEDcore/quantumtrajectory/EvolutionMethod.cc","CPPQEDutils/Trajectory.h","CPPQEDscripts","CPPQEDelements/frees/Mode_.h","CPPQEDelements/frees/Qbit_.h","CPPQEDelements/interactions/JaynesCummings.h"],
[("evolve","CPPQEDcore/quantumtrajectory/Evolution_.h"),("programs","CPPQEDscripts/*.cc")],
["stdout, output files and exit codes of the programs vs dense solutions of the equation of motion","values returned by evolve() vs hand-made trajectories","content of the initial condition after the run"])

p("C24","Phase-space distribution functions and their maps are those of the state",
"For every one-mode state in number basis, given as density operator, state vector or view, and every point of phase space, the Wigner function has the value of the documented formula (the expectation value of the displaced parity), is bounded, integrates to the norm and has the right moments; the Q function is the overlap with the coherent state of that amplitude; a dimension cutoff restricts the state to the first levels and is harmless if it exceeds the dimension; a map contains every point of the grid asked for exactly once, in blocks of equal x, with the value of the function there.",
["inputs"],"every state, dimension, point and grid",
"No test evaluates a distribution function.",
["CPPQEDcore/quantumdata/DistributionFunctions.h","CPPQEDcore/quantumdata/DistributionFunctions.cc"],
[("wignerFunction, qFunction, scanFunction","CPPQEDcore/quantumdata/DistributionFunctions.h")],
["returned values and maps vs displaced-parity and coherent-overlap computation in extended precision"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    
    if len(x['title'])>80: print(x['id'],len(x['title']))
    import os
    for f in x['anchors']['files']:
        if not os.path.exists('/repo/'+f): print(x['id'],f)
