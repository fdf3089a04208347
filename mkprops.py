"""Writes properties.jsonl (one place to edit the statements)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    d = dict(
        id=id,
        title=title,
        statement=statement,
        quantifier=dict(over=over.split(), text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files.split(),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe),
            hook_needed=None,
        ),
    )
    assert len(title) <= 80, (id, len(title))
    P.append(d)


prop(
    "C01",
    "Same input and seed give the same trajectory, whatever the scheduling",
    "Running the same input with the same random seed and the same potential twice gives the same positions, momenta, cell, random stream and output files. The result does not depend on whether force fields run threaded (or systems, as long as they draw no random numbers), on how many evaluations are batched together, on the order or delay with which force evaluations come back, or on which other outputs and messages are requested.",
    "configurations schedules",
    "every motion/thermostat/barostat/normal-mode configuration, seed, and arrival order of force results",
    "The regression tests compare a few fixed inputs against stored numbers with one driver answering in order; no test varies thread timing, batch size or reply order.",
    "ipi/engine/simulation.py ipi/engine/forcefields.py ipi/engine/forces.py ipi/utils/prng.py ipi/engine/thermostats.py",
    [("seeded generator owned by the simulation", "ipi/utils/prng.py"), ("requests keyed by id and collected per bead", "ipi/engine/forces.py:ForceBead"), ("step loop", "ipi/engine/simulation.py:run_step")],
)
prop(
    "C02",
    "Restarting from a checkpoint continues the run exactly",
    "If a run is checkpointed after any step and a new process is started from that checkpoint, it produces, step by step, the same positions, momenta, cell, thermostat, barostat and bias state, random numbers, conserved quantity and output lines that the uninterrupted run produces from that step on. The step counter, total number of steps and all user settings survive the checkpoint unchanged, for any number of successive restarts.",
    "histories configurations crash_points",
    "every configuration of motion, thermostat, barostat, normal modes, ensemble, replica exchange and force composition, and every checkpointed step",
    "One unit test and a few regression inputs write a RESTART file, but none compares a resumed trajectory with the uninterrupted one across thermostats, barostats, multiple time stepping, open paths or replica exchange, nor at every step.",
    "ipi/engine/simulation.py ipi/engine/outputs.py ipi/inputs/simulation.py ipi/inputs/system.py ipi/inputs/thermostats.py ipi/inputs/barostats.py ipi/inputs/motion/dynamics.py ipi/inputs/prng.py ipi/inputs/beads.py ipi/inputs/cell.py ipi/inputs/normalmodes.py ipi/inputs/ensembles.py ipi/inputs/forcefields.py ipi/inputs/smotion/remd.py",
    [("store/fetch of every input class", "ipi/inputs/*"), ("checkpoint output", "ipi/engine/outputs.py:CheckpointOutput"), ("prng state", "ipi/utils/prng.py")],
)
prop(
    "C03",
    "A soft exit at any moment leaves a complete, resumable run",
    "However a run is asked to stop (EXIT file, wall-clock limit, SIGINT or SIGTERM, or the end of its steps), at any moment, it ends by itself, even while drivers do not answer, after writing a complete RESTART file that holds the state after a completed step (the last one, or at most safe_stride earlier), never a half-done step. Running from that RESTART to the end gives, over both runs together, every scheduled output record (a record repeated around the stop is identical in both, and none is cut short) and the same final state as an uninterrupted run; sockets and shared memory are released.",
    "crash_points schedules histories",
    "every moment at which a stop request can arrive (between or within steps, while waiting for forces, while writing) and every stop cause",
    "Tests never interrupt a running simulation; they run a few steps to completion.",
    "ipi/utils/softexit.py ipi/engine/simulation.py ipi/engine/outputs.py ipi/engine/forcefields.py ipi/interfaces/sockets.py bin/i-pi",
    [("softexit registry and trigger", "ipi/utils/softexit.py"), ("rollback to the last completed step", "ipi/engine/simulation.py:softexit"), ("driver status and socket teardown", "ipi/interfaces/sockets.py")],
)
prop(
    "C04",
    "Every force request is answered once, by the right structure, despite faults",
    "Each force request issued by the engine gets exactly one result, and that result was computed by a driver for exactly the positions and cell of that request, for any number of drivers connecting, disconnecting, dying, stalling past the timeout, fragmenting their messages, or reporting errors mid-protocol. As long as at least one healthy driver remains connected (or connects later) every request completes; a dead or silent driver never blocks the others, and its unfinished job is given to another driver.",
    "fault_sequences schedules histories",
    "every interleaving of driver connections, disconnections, delays and failures at each protocol stage, for unix/inet sockets, all dispatch and matching modes, with and without threads",
    "Socket tests use one or two well-behaved drivers on a fast local link; none kills or stalls a driver between protocol messages.",
    "ipi/interfaces/sockets.py ipi/engine/forcefields.py",
    [("status poll, dispatch and redistribution of jobs", "ipi/interfaces/sockets.py:InterfaceSocket"), ("driver protocol", "ipi/interfaces/sockets.py:Driver"), ("request queue and lock", "ipi/engine/forcefields.py:FFSocket")],
)
prop(
    "C05",
    "Derived quantities are never stale",
    "At any time, every cached quantity of a simulation (energies, forces, virials, kinetic terms, normal-mode coordinates and frequencies, propagation matrices, cell inverse and volume, masses per degree of freedom, thermostat matrices, conserved quantity, estimators) equals what a fresh computation from the current positions, momenta, cell, masses, temperature, pressure, time step and settings gives, after any sequence of assignments, including assignments to slices and to synchronised copies. Values that must stay synchronised (bead and normal-mode coordinates, shared temperature or time step, cell and barostat momenta) always agree.",
    "histories configurations",
    "every sequence of reads and (whole or partial) writes to any of the primary variables, in any order",
    "Unit tests read each quantity once after construction; staleness needs read-write-read orders across objects bound at run time.",
    "ipi/utils/depend.py ipi/engine/beads.py ipi/engine/normalmodes.py ipi/engine/cell.py ipi/engine/forces.py ipi/engine/ensembles.py ipi/engine/thermostats.py ipi/engine/barostats.py ipi/engine/motion/dynamics.py ipi/engine/system.py",
    [("taint propagation, synchronizer, pipes", "ipi/utils/depend.py"), ("declared dependencies", "ipi/engine/*.py depend_value/depend_array definitions")],
)
prop(
    "C06",
    "Normal-mode transforms and free ring-polymer motion are exact",
    "For any number of beads (even, odd, one), closed or open paths, and any transform back end, bead and normal-mode coordinates are related by an orthogonal transformation that diagonalises the ring-polymer springs, so kinetic and spring energies agree in both representations and forces transform consistently; resampling to other bead numbers keeps the centroid and the smooth path, and its adjoint maps forces back so that work is conserved. The exact free propagator evolves every mode as a harmonic oscillator (free particle for zero frequency) of the proper frequency and dynamical mass for any time step, and the approximate ones are symplectic, reversible and second-order accurate.",
    "inputs configurations",
    "all bead numbers, open-path sets, masses, temperatures, frequency schemes, time steps and path configurations",
    "Unit tests transform a few small arrays for a few bead numbers and do not compare the propagator with the analytic solution.",
    "ipi/utils/nmtransform.py ipi/engine/normalmodes.py",
    [("nm_trans / nm_fft / nm_rescale", "ipi/utils/nmtransform.py"), ("free_qstep, prop_pq, frequencies, dynamical masses, spring potential", "ipi/engine/normalmodes.py")],
)
prop(
    "C07",
    "Forces and stress are the exact derivatives of the energy that is reported",
    "For any composition of force components (weights, ring-polymer contraction, multiple-time-step weights, interpolation, finite differences or Suzuki-Chin terms, bias potentials and Hamiltonian weights, open paths) the total force on every bead coordinate is minus the derivative of the total effective potential, and the virial is minus its derivative with respect to strain. The multiple-time-step levels sum up to the total, and the per-component values are those the drivers returned, scaled only by the user's weights.",
    "inputs configurations",
    "all geometries, cells, bead numbers and per-component bead numbers, weights, and combinations of components and biases",
    "Tests compare a handful of trajectories against stored numbers; no test differentiates the energy for arbitrary combinations.",
    "ipi/engine/forces.py ipi/engine/ensembles.py ipi/engine/normalmodes.py ipi/utils/exchange.py ipi/utils/nmtransform.py",
    [("Forces: weighted sum, contraction and back transformation", "ipi/engine/forces.py:Forces"), ("ScaledForceComponent", "ipi/engine/forces.py"), ("bias forces", "ipi/engine/ensembles.py")],
)
prop(
    "C08",
    "Integrators are time-reversible, symplectic and conserve energy to second order",
    "Without stochastic thermostats every integrator (constant energy, pressure or stress, Suzuki-Chin, multiple time step, constrained, centroid-constrained; both splittings; any frozen atoms and free propagator) retraces its trajectory when momenta are reversed, and the drift of its conserved quantity over a fixed time decreases with the square of the time step. The integrated time equals the step times the number of steps, whichever inner splitting is used, and the motion converges to the exact solution of the equations of motion.",
    "inputs configurations",
    "all initial conditions, masses, potentials, numbers of beads and inner steps, splittings and ensembles",
    "Regression tests store a few short trajectories of one time step; they do not test convergence or reversibility for arbitrary settings.",
    "ipi/engine/motion/dynamics.py ipi/engine/motion/constrained_dynamics.py ipi/engine/barostats.py ipi/engine/normalmodes.py",
    [("integrator steps and splitting", "ipi/engine/motion/dynamics.py"), ("barostat propagation", "ipi/engine/barostats.py"), ("conserved quantity", "ipi/engine/ensembles.py")],
)
prop(
    "C09",
    "Thermostats sample the right ensemble and account for the energy they exchange",
    "For every thermostat, the thermostat step changes only momenta (and its own auxiliary variables), leaves the Maxwell-Boltzmann distribution at the target temperature invariant in every mode it acts on, and relaxes towards it at the rate set by the user. The heat it adds or removes is tracked exactly, so that the conserved quantity does not change across a thermostat step; with a vanishing coupling nothing changes at all.",
    "inputs configurations histories",
    "all thermostat kinds and parameters (including matrices for coloured noise and per-mode settings), masses, temperatures, time steps, bead numbers and constraints",
    "Unit tests check instantiation and one or two short runs; stationarity and energy accounting are statements over all momenta and noise histories.",
    "ipi/engine/thermostats.py ipi/engine/motion/dynamics.py ipi/utils/mathtools.py",
    [("thermostat steps and ethermo", "ipi/engine/thermostats.py"), ("matrix exponential and stable square root", "ipi/utils/mathtools.py")],
)
prop(
    "C10",
    "Barostats move cell and atoms consistently and conserve their Hamiltonian",
    "In every constant-pressure and constant-stress scheme the cell and the atoms (centroids only, when quantum) follow the same strain, the cell is never strained along the components the user fixed (nor changes volume when that is constrained), and the instantaneous pressure or stress driving the cell equals the kinetic plus virial value. With thermostats off the extended conserved quantity (including pressure-volume or strain energy, cell kinetic energy and the measure terms) is constant up to second order in the time step, and at equilibrium the average pressure equals the target.",
    "inputs configurations",
    "all cells (orthorhombic or triclinic), reference cells, masks, pressures and stresses, bead numbers, time steps and splittings",
    "Only a couple of stored trajectories exercise barostats, none varies masks, triclinic cells or the time step.",
    "ipi/engine/barostats.py ipi/engine/cell.py ipi/engine/motion/dynamics.py",
    [("pstep, qcstep, pot, cell_jacobian", "ipi/engine/barostats.py"), ("strain", "ipi/engine/cell.py")],
)
prop(
    "C11",
    "Frozen atoms, fixed centre of mass and constraints are honoured at every step",
    "Atoms or degrees of freedom declared fixed never move (with a barostat, keep their scaled coordinates), carry no momentum and receive no thermostat noise, in dynamics and optimisations; when the centre of mass is fixed its momentum stays zero; geometric constraints are satisfied by positions (to tolerance) and velocities (orthogonality) after every step of constrained dynamics, which otherwise follows the constrained equations of motion. Kinetic temperatures and velocity-rescaling thermostats count the degrees of freedom that can move, so that temperature estimates stay unbiased.",
    "configurations histories",
    "all sets of fixed atoms or components, with and without fixed centre of mass, all thermostats, barostats, bead numbers, splittings and constraint lists",
    "A few stored trajectories use one setting each; combinations are not tested.",
    "ipi/engine/motion/dynamics.py ipi/engine/motion/constrained_dynamics.py ipi/utils/constrtools.py ipi/engine/properties.py ipi/engine/thermostats.py ipi/engine/barostats.py",
    [("pconstraints", "ipi/engine/motion/dynamics.py"), ("SHAKE/RATTLE", "ipi/engine/motion/constrained_dynamics.py"), ("degree-of-freedom counts", "ipi/engine/properties.py:get_temp")],
)
prop(
    "C12",
    "Units are converted consistently everywhere",
    "A physical value written in any supported unit is the same physical value: conversions to internal units and back are inverse, agree with CODATA-derived factors, prefixes multiply as powers of ten, and conversions between any two units compose. Inputs, initial files, properties and trajectories given or requested in any unit describe the same physics, and headers state the units actually used; unknown units or dimensions are rejected.",
    "inputs",
    "all dimensions, units, prefixes and values, in inputs, file headers and outputs",
    "Tests convert a few values; a wrong factor for a rarely used unit or path is not noticed.",
    "ipi/utils/units.py ipi/utils/io/io_units.py ipi/utils/inputvalue.py ipi/engine/outputs.py ipi/engine/properties.py ipi/utils/io/__init__.py",
    [("unit_to_internal/unit_to_user/UnitMap", "ipi/utils/units.py"), ("auto_units, process_units", "ipi/utils/io/io_units.py"), ("InputAttribute/InputValue units", "ipi/utils/inputvalue.py")],
)
prop(
    "C13",
    "Structures survive being written to and read from every trajectory format",
    "Writing frames in any supported format (xyz, pdb, binary, json, ase) and reading them back gives, frame by frame and in order, the same atoms, labels, values, cell and metadata to the precision of the format, for every combination of cell convention and units (pdb and ase: positions only). A damaged or truncated file yields an error or ends at the last complete frame, never a silently altered frame.",
    "inputs fault_sequences",
    "all structures, cells, labels, units, frame counts, formats and truncation points",
    "Tests read back a few fixed files; they do not cover arbitrary cells, units, large values, or damaged files.",
    "ipi/utils/io/__init__.py ipi/utils/io/backends/io_xyz.py ipi/utils/io/backends/io_pdb.py ipi/utils/io/backends/io_binary.py ipi/utils/io/backends/io_json.py ipi/utils/io/backends/io_ase.py ipi/utils/io/io_units.py ipi/utils/mathtools.py",
    [("print_*/read_* pairs", "ipi/utils/io/backends"), ("iter_file, read_file, process_units", "ipi/utils/io")],
)
prop(
    "C14",
    "Inputs are understood exactly, and can be written out and read again",
    "Any valid input, read and written back in full, is read again as the same simulation: same values (including strings, arrays, dictionaries, booleans, defaults and attributes, in any layout, unit and whitespace) and same behaviour. Unknown tags or attributes, values of the wrong type, missing required fields and values outside the allowed options are rejected with an error instead of being ignored or guessed.",
    "inputs",
    "all input documents",
    "Tests parse the example inputs only.",
    "ipi/utils/inputvalue.py ipi/utils/io/inputs/io_xml.py ipi/utils/io/inputs/io_json.py ipi/inputs",
    [("Input.parse/write/check", "ipi/utils/inputvalue.py"), ("xml parser and writer", "ipi/utils/io/inputs/io_xml.py")],
)
prop(
    "C15",
    "Periodic cells: volume, strain, wrapping and minimum image are exact",
    "For every cell (orthorhombic or triclinic, given as matrix, lengths and angles, or reference plus strain) the volume, inverse and scaled positions are consistent; wrapping moves each atom by an integer number of lattice vectors into the cell; minimum-image vectors differ from the direct ones by integer lattice vectors, are the shortest for orthorhombic cells and never longer than half the reduced cell in scaled coordinates. Conversions between matrix and lengths-and-angles descriptions are inverse up to a rotation.",
    "inputs",
    "all right-handed upper-triangular cells and all positions",
    "Unit tests use a handful of cells.",
    "ipi/engine/cell.py ipi/utils/mathtools.py ipi/utils/distance.py ipi/utils/io/__init__.py",
    [("apply_pbc, minimum_distance, array_pbc", "ipi/engine/cell.py"), ("h2abc, abc2h, invert_ut3x3, det_ut3x3", "ipi/utils/mathtools.py")],
)
prop(
    "C16",
    "Reported properties equal their definitions on the current state",
    "Every property and trajectory quantity i-PI can output equals its documented definition evaluated independently from the current positions, momenta, forces, virials, masses, cell and temperature, for any bead number, atom or bead selection, species, open or closed paths. Path-integral estimators have the correct limits: they reduce to the classical ones for one bead, and primitive, virial and momentum estimators of the same observable agree on average.",
    "inputs configurations",
    "all states and all property specifications with any allowed arguments",
    "Tests check some columns of some stored runs; many estimators are never evaluated with more than one setting.",
    "ipi/engine/properties.py ipi/engine/outputs.py",
    [("property dictionary and getters", "ipi/engine/properties.py:Properties"), ("trajectory dictionary", "ipi/engine/properties.py:Trajectories")],
)
prop(
    "C17",
    "Outputs hold exactly the scheduled records, in order, and match the state",
    "Every output file contains one record for each multiple of its stride from step zero (only the initial record once), in step order and with the step and time of the state it describes, with the columns and header that were asked for; trajectory files hold one complete frame per bead and scheduled step. Files of an earlier run in the same folder are backed up, not overwritten or mixed; appended output after a restart continues without gaps or repeats; checkpoints are numbered or overwritten as requested.",
    "configurations histories",
    "all combinations of outputs, strides, flush intervals, formats, bead selections, numbers of steps and systems",
    "Regression tests compare selected outputs of a single run with matching strides.",
    "ipi/engine/outputs.py ipi/engine/simulation.py ipi/utils/io/__init__.py ipi/utils/messages.py",
    [("write per step", "ipi/engine/outputs.py"), ("step loop and step counter", "ipi/engine/simulation.py")],
)
prop(
    "C18",
    "Replica exchange swaps obey detailed balance and keep every replica intact",
    "Each attempted swap between replicas is accepted with the Metropolis probability of their combined ensemble (temperature, pressure, bias, Hamiltonian weights, path spring terms), and exchanges whole ensembles only: afterwards each replica still has its own positions, momenta rescaled to its new temperature, and consistent thermostat, barostat and time step. The list of which ensemble each replica holds is always a permutation that matches what is written to the output, and the total conserved quantity stays continuous across exchanges.",
    "histories inputs configurations",
    "all numbers of replicas, parameter ladders, random histories and system states",
    "One stored trajectory covers temperature exchange with a fixed seed.",
    "ipi/engine/smotion/remd.py ipi/engine/ensembles.py ipi/engine/outputs.py tools/py/remdsort.py",
    [("ReplicaExchange.step, ensemble_swap, motion_scale", "ipi/engine/smotion/remd.py"), ("lpens", "ipi/engine/ensembles.py")],
)
prop(
    "C19",
    "Bosonic exchange equals the explicit sum over permutations",
    "For any number of bosons and beads the spring potential, forces, and thermodynamic estimators of the bosonic ring polymer equal those of the explicit, weighted sum over permutations that defines the method (cycles of consecutive labels, each with the weight of the permutations it stands for), and forces are minus the gradient of the potential. Distinguishable atoms in the same system keep ordinary rings, and a single boson behaves as a distinguishable particle.",
    "inputs configurations",
    "all configurations, boson subsets, temperatures, bead numbers and masses",
    "Unit tests compare up to a few particles at fixed random positions; not through the engine, subsets, or changing states.",
    "ipi/utils/exchange.py ipi/engine/normalmodes.py ipi/engine/properties.py",
    [("recursive evaluation", "ipi/utils/exchange.py:ExchangePotential"), ("engine coupling", "ipi/engine/normalmodes.py"), ("estimators", "ipi/engine/properties.py")],
)
prop(
    "C20",
    "Optimisers, paths and phonons return what they claim when they say converged",
    "When a geometry optimisation or band search reports convergence, the final structure satisfies the stated force, displacement and energy tolerances, lowers the energy (minimisers) and respects fixed atoms; optimisers never change what is declared fixed and never end silently without having converged or run out of steps. Hessians and dynamical matrices obtained by finite differences are symmetric and match the analytic second derivatives, and their reported frequencies and modes diagonalise them, whether computed in one go or resumed from a restart.",
    "inputs histories",
    "all starting structures, optimiser modes, tolerances, fixed atoms, and interruption points",
    "Regression tests run few fixed inputs; convergence claims for arbitrary starts, and resumption, are untested.",
    "ipi/engine/motion/geop.py ipi/utils/mintools.py ipi/engine/motion/neb.py ipi/engine/motion/stringmep.py ipi/engine/motion/phonons.py ipi/engine/motion/instanton.py ipi/utils/instools.py",
    [("optimisers", "ipi/engine/motion/geop.py"), ("line searches and Hessian updates", "ipi/utils/mintools.py"), ("finite-difference dynamical matrix", "ipi/engine/motion/phonons.py")],
)
prop(
    "C21",
    "Bundled potentials return consistent, memory-safe energies, forces and virials",
    "The potentials shipped with the Python and Fortran drivers return forces that are minus the gradient of the energy they return, and, for those that compute a virial (Lennard-Jones and its mixtures and polymers, Silvera-Goldman, the q-TIP4P/f family, the field term), a virial that is minus its derivative with respect to strain and is laid out as the server reads it. Periodic potentials are unchanged by lattice translations, the others by the translations and rotations of their model, and all by permutations of identical atoms or molecules. What is returned for a structure does not depend on the structures computed before it (neighbour lists follow moves and cell changes) nor on whether it travels by socket or shared memory. Extra data (friction tensors, dipoles and their derivatives, committee members) agree with the quantities they describe. The harmonic models of the two drivers agree. The Fortran driver runs without memory errors or uninitialised data for any system size and option set, refuses the wrong number of options, options that are not numbers and numbers of atoms that the model cannot take, and ends with an error when the connection is lost in the middle of a message.",
    "inputs configurations",
    "all structures and cells in the domain of each potential, all option strings",
    "Driver tests evaluate one structure per potential against stored numbers and never run under a sanitizer.",
    "ipi/pes drivers/f90 drivers/py/driver.py",
    [("PES classes", "ipi/pes/*.py"), ("Fortran driver and potentials", "drivers/f90/*.f90"), ("sockets.c", "drivers/f90/sockets.c")],
)
prop(
    "C22",
    "All transports to the force drivers deliver the same data",
    "Positions, cell, energies, forces, virials and extra data reach the driver and come back bit for bit the same whether a force field is direct, batched, or through a unix or internet socket, shared memory or MPI, in one or several messages, and for any number of atoms, beads and drivers. When a subset of active atoms is declared for a socket force field only those are sent, with zero forces elsewhere; extra data (any text or JSON) keep their content, structure and order of beads.",
    "inputs configurations",
    "all system sizes, payloads, extra strings, active subsets, and transport options",
    "Tests use the socket with one small system; payload sizes, extras, subsets and shared memory are not compared across transports.",
    "ipi/interfaces/sockets.py ipi/engine/forcefields.py ipi/engine/forces.py drivers/py/driver.py drivers/f90/driver.f90 drivers/f90/sockets.c",
    [("sendpos/getforce", "ipi/interfaces/sockets.py:Driver"), ("queue and active mask", "ipi/engine/forcefields.py"), ("extras gather", "ipi/engine/forces.py")],
)
prop(
    "C23",
    "Random numbers have the advertised distribution and independent streams",
    "The generator yields uniform, Gaussian and gamma deviates of the stated distribution, each number is used once, and any interleaving of scalar and array requests, threads, and save/restore of the state continues the same stream. Different seeds or threads give independent streams, and arrays are filled completely whatever their shape or memory layout.",
    "inputs histories schedules",
    "all seeds, call sequences, array shapes and thread counts",
    "Tests do not exercise statistics, state restore or the threaded path.",
    "ipi/utils/prng.py ipi/inputs/prng.py",
    [("Random", "ipi/utils/prng.py"), ("InputRandom store/fetch", "ipi/inputs/prng.py")],
)
prop(
    "C24",
    "Monte Carlo moves and ramps keep the state consistent and sample correctly",
    "Every attempted Monte Carlo move (atom swap, isotope exchange) is accepted with the Metropolis probability of its true energy change, leaves the state bit-for-bit unchanged when rejected, and exchanges exactly two atoms when accepted, with the energy it adds tracked in the conserved quantity. Temperature and pressure ramps follow the requested schedule step by step and end exactly at the requested value; replayed trajectories present every frame in order with properties computed on that frame.",
    "histories inputs configurations",
    "all systems, names, random histories, ramp schedules and step counts",
    "A few stored runs exist with fixed seeds; acceptance statistics and rejected-move state are not examined.",
    "ipi/engine/motion/atomswap.py ipi/engine/motion/alchemy.py ipi/engine/motion/ramp.py ipi/engine/motion/replay.py ipi/engine/motion/multi.py",
    [("AXswap / euclid / step", "ipi/engine/motion/alchemy.py"), ("AtomSwap.step", "ipi/engine/motion/atomswap.py"), ("ramps", "ipi/engine/motion/ramp.py")],
)
prop(
    "C25",
    "Composite force fields combine their members exactly",
    "A committee returns the documented combination of its members (mean or baseline-corrected mean, per-member values and uncertainty in the extras), with forces consistent with the combined energy. A rotation-averaged field returns the weighted average over its orthogonal rotations with forces, virials and extras rotated back; built-in analytic fields (harmonic Einstein crystal, Lennard-Jones, driven pairs, cavity photons) return forces that are minus the gradient of their energy, and the order in which members answer never matters.",
    "inputs schedules configurations",
    "all structures, member counts, weights, grids and parameters, and every order of member replies",
    "Unit tests check two members with fixed values in one order.",
    "ipi/engine/forcefields.py",
    [("FFCommittee.gather, FFRotations, FFDebye, FFLennardJones, FFdmd, FFCavPhSocket", "ipi/engine/forcefields.py")],
)
prop(
    "C26",
    "Initial conditions are built exactly as requested",
    "Positions, momenta or velocities, masses, labels and cell initialised from files, explicit values or checkpoints, in any mixture and order, end up as given (in internal units), for any number of beads: a single structure is replicated to all beads, positions of a ring polymer with another number of beads are resampled keeping its centroid and path. Thermal velocities have the Maxwell-Boltzmann distribution of the requested temperature in every normal mode, single-index initialisations touch only that atom or bead, the variables of a GLE thermostat can be given or taken from a checkpoint, and inconsistent sizes are rejected.",
    "inputs configurations",
    "all input file formats, bead numbers, units, and sequences of initialisation directives",
    "A few example inputs use one initialisation each.",
    "ipi/engine/initializer.py ipi/inputs/initializer.py ipi/utils/nmtransform.py",
    [("Initializer.init_stage1/2", "ipi/engine/initializer.py"), ("file readers", "ipi/utils/io")],
)
prop(
    "C27",
    "Instantons are stationary tunnelling paths; mode energies match the potential",
    "Every structure an instanton search visits carries its own energies and forces, fixed atoms and the cell never move, and a search interrupted and continued from its checkpoint visits the same structures. When a search announces convergence, the (uniformly discretised, open) path found is stationary for the potential plus springs within the force tolerance (or its forces no longer change), the last step and energy change are within their tolerances, a rate search has ended at a path with at most one unstable direction and a splitting search at a minimum, and the final geometry, energies, forces and (when asked for) Hessian written to files are those of that path. Independent-mode (imf) analysis of a minimum maps the potential along each normal mode exactly and reports harmonic and anharmonic free and internal energies that agree with solving each one-dimensional problem, for any sizes, masses, temperatures and offsets.",
    "inputs histories configurations",
    "all double wells, optimisers, bead numbers, temperatures, masses, fixed atoms and moments of interruption",
    "Stored runs compare a few final numbers on one potential with loose tolerances; nothing recomputes gradients or Hessians of the path.",
    "ipi/engine/motion/instanton.py ipi/utils/instools.py ipi/utils/mintools.py ipi/utils/hesstools.py ipi/engine/motion/vscf.py",
    [("SpringMapper / HessianOptimizer / LanczosOptimizer / LBFGSOptimizer", "ipi/engine/motion/instanton.py"), ("print_instanton_geo, print_instanton_hess, sym_band", "ipi/utils/instools.py"), ("IMF", "ipi/engine/motion/vscf.py")],
)
prop(
    "C28",
    "Driven dynamics follows the requested electric field",
    "In driven dynamics (eda-nve, eda-nvt) the field at any time is amplitude times cos(frequency*time + phase) times the Gaussian envelope (when peak and width are given), in the units given. Every step adds, to the step of the underlying integrator (either splitting, any nmts, fixed atoms or centre of mass, any number of beads), half a time step of the impulse Born charges times field at the time and structure the step starts from, and half at those it ends at, for each bead; the thermostat is otherwise unaffected. Born charges are the given ones or those the driver returned for the current structure of each bead; unusable ones (missing, wrong shape, not neutral) stop the run. The field, envelope, dipole (mean and per bead, from a structured or free-text reply), charges and field forces reported belong to the current structure and time, and a run continued from a checkpoint keeps its clock and its field.",
    "inputs histories configurations",
    "all pulses, systems, bead numbers, splittings, steps, restarts and ways of giving charges and dipoles",
    "One stored run of ten steps with one bead and constant charges exists.",
    "ipi/engine/motion/driven_dynamics.py ipi/inputs/motion/driven_dynamics.py ipi/engine/properties.py",
    [("EDAIntegrator.td_pstep / EDAforces, EDANVEIntegrator, EDANVTIntegrator", "ipi/engine/motion/driven_dynamics.py"), ("BEC, ElectricDipole, ElectricField", "ipi/engine/motion/driven_dynamics.py"), ("Efield, Eenvelope, dipole, bec*, Eforces", "ipi/engine/properties.py")],
)

prop(
    "C29",
    "The Python interface shows and continues the simulation faithfully",
    "A simulation driven through the Python interface is the simulation its input describes: run in pieces of any length, or continued from the checkpoint it saves, it goes through the states, and writes the files, of the uninterrupted run. The structures and properties it hands out are those of the current state (every bead or the centroid, every system, in ASE units); structures that are set become exactly the state, and everything computed afterwards belongs to them; thermalising gives Maxwell-Boltzmann momenta at the ensemble temperature that respect the constraints and does not move the conserved quantity's record; a custom property or step runs once per step on the current state. The helper functions that write inputs describe what was asked (socket mode and address, thermostat, barostat, prefix, beads, units) and refuse what they cannot describe, and the readers of outputs and trajectories return every frame, with its step number, values and units.",
    "inputs histories configurations",
    "all inputs, cuts of a session, structures, helper arguments and output files",
    "Few tests use the interface, with one system each and no comparison with the uninterrupted run.",
    "ipi/scripting/interactive.py ipi/scripting/templates.py ipi/scripting/parsing.py",
    [("InteractiveSimulation", "ipi/scripting/interactive.py"), ("simulation_xml, forcefield_xml, motion_nvt_xml", "ipi/scripting/templates.py"), ("read_output, read_trajectory", "ipi/scripting/parsing.py")],
)

prop(
    "C30",
    "Analysis tools compute what they say from the files of a run",
    "The tools shipped with i-PI give, for every trajectory (any units of data and cell, cell shape and motion, number of atoms, frames and beads), the quantity they document, in labelled units and for every frame: contracting or averaging beads; multiplexing, selecting, wrapping and unwrapping frames; converting between formats; merging beads; removing the centre of mass; centroid-virial kinetic energy tensors and their moving average; autocorrelation functions, their spectra and errors (blocks, windows, padding, derivative, selection, skipping); committee reweighting (cumulant, direct, several observables, strides); the kernel of a GLE. Trimming a run at a checkpoint leaves exactly the part of every file up to that step, and columns of property files are extracted whole. Files that do not belong together are refused.",
    "inputs configurations",
    "all trajectories, units, cells, lengths and options of the tools",
    "The tools have almost no tests.",
    "tools/py ipi/utils/tools",
    [("contract-trajectory, mux-positions, trimsim, getproperty, a2b, xyz2pdb, mergebeadspdb, fixcom", "tools/py/contract-trajectory.py"), ("posforce2kinetic, kinetic2tag, committee-reweight", "tools/py/posforce2kinetic.py"), ("compute_acf_xyz, gle_frequency_kernel", "ipi/utils/tools/acf_xyz.py")],
)

prop(
    "C31",
    "Biases through PLUMED and metadynamics are exact and keep the energy balance",
    "A bias evaluated by the PLUMED library acts on the system exactly as the library says: energy, forces and virial (also when the physical energy is the collective variable, where only the correction counts) for the current centroid, cell and energy, in consistent units, times the weight of the bias, and quantities requested from the library are handed over. With metadynamics, each step updates every bias with non-zero weight once, at the centroid of its system, with a step counter that survives restarts; the conserved quantity does not change when hills are added, for any weight and number of beads, the bias energy afterwards is the one of the new bias, and a run continued from a checkpoint adds to the same bias and gives the same trajectory. Force fields without this interface, the energy as variable with several beads, or another number of atoms are refused.",
    "inputs histories configurations",
    "all biases, weights, ensembles, bead numbers, deposition histories and restart points",
    "PLUMED is not installed with the tests, which never run this code.",
    "ipi/engine/forcefields.py ipi/engine/smotion/metad.py ipi/engine/ensembles.py",
    [("FFPlumed.evaluate, mtd_update", "ipi/engine/forcefields.py"), ("MetaDyn.bind, step", "ipi/engine/smotion/metad.py")],
)

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
