#!/usr/bin/env python3
# Single source of /verif/properties.jsonl
import json,os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    P.append(d)

p("C01","Field integration is independent of thread count and thread schedule",
  "Computing the fields of any observer (plane screen, meshed screen, snapshot, point) with any number of OpenMP threads and under any interleaving of those threads yields exactly the result of the single-threaded computation: every observation point receives its own complete field once, no point is skipped, mixed up or computed twice. No two threads access the same memory without synchronisation while at least one of them writes it (apart from progress printing).",
  ["schedules","configurations"],"all interleavings of 1..4 worker threads at their runtime calls and source-field evaluations (bounded preemptions), all assignments of loop iterations the runtime may make, all observer/source types",
  "The test programs run the loops with whatever schedule the machine happens to produce, mostly on one tiny screen, and never look for data races.",
  ["src/screen.cpp","src/mesh.cpp","src/snapshot.cpp","src/point_observer.cpp"],
  [("parallel loops over observation points writing disjoint cells","src/screen.cpp ScreenObserver::integrate, src/mesh.cpp MeshedScreen::integrate, src/snapshot.cpp SnapshotObserver::integrate"),("atomic progress counter","same")])
p("C02","Simulation output is independent of the number of MPI processes",
  "For every input deck, running the simulation program on 1, 2, ... N processes (also more processes than particles, and particle numbers that do not divide evenly) terminates with every process taking part in the same sequence of collective operations, and writes the same output files: beam parameter logs, trajectory logs, watch points, interaction logs, snapshots and observed fields of beam and lattice sources agree up to floating-point summation order. Every particle is tracked by exactly one process and keeps its identity in all outputs.",
  ["configurations","schedules"],"all process counts 1..5 x particle numbers 1..7 split over bunches x observer/logger/interaction kinds; all orders in which processes can arrive at collectives (bounded)",
  "The test-suite only ever runs a single process, so distribution, gathering and reduction are never exercised.",
  ["src/teufel_hybrid.cpp","src/beam.cpp","src/bunch.cpp"],
  [("chunked particle distribution","src/teufel_hybrid.cpp"),("MPI_Bcast/Allgather of step buffers","src/teufel_hybrid.cpp, Beam::bufferStep/setStepFromBuffer"),("MPI_Reduce of observer buffers","src/teufel_hybrid.cpp")],
  observe=["output files of the teufel program run against a simulated MPI library"])
p("C03","Moving particles and beams through transfer buffers loses nothing",
  "A particle restored from its serialized full-trajectory buffer, or copied, is indistinguishable from the original: same charge, trajectory (time, position, momentum, acceleration of every point), current coordinates (a copy also the fields it last saw), and the same continuation when tracking is resumed; the short serialization restores the latest point. Step buffers of bunches and beams carry all particles in order, without gaps or overruns, and reading one back appends exactly these coordinates to each particle and counts one step; buffer sizes reported are exactly what is written.",
  ["histories","inputs"],"all operation sequences (create, init, track, serialize, restore, copy, clear, shift) up to a depth x trajectory lengths 0..4 x bunch structures",
  "No test touches the serialization or buffer functions at all.",
  ["src/particle.cpp","src/bunch.cpp","src/beam.cpp"],
  [("serialize/serializeTraj/constructors from buffer","src/particle.cpp"),("bufferStep/setStepFromBuffer/bufferProbe/bufferCoordinates","src/bunch.cpp, src/beam.cpp")])
p("C04","A particle's recorded trajectory is a faithful history of its motion",
  "Initialising a trajectory leaves exactly one recorded point; each tracking step appends exactly one point whose time advances by the set time step and whose coordinates equal the current coordinates reported for the particle; recorded points are never altered by later steps. Shifting or mirroring a particle displaces or reflects its current coordinates and every recorded trajectory point (position, momentum, acceleration) and scales the charge; out-of-range trajectory queries raise an exception, and coordinates requested at any time within the recorded span are the linear interpolation of the enclosing points (zero outside).",
  ["histories","inputs"],"all sequences of init/track/step/shift/mirror/clear/store up to depth 5 x trajectory lengths 0..6 x query indices and times on, between and beyond the points",
  "Tests track long trajectories and look at the last point only; Shift, Mirror, queries at node times or beyond the ends are untested.",
  ["src/particle.cpp","src/particle.h"],
  [("parallel vectors Time/X/P/A with NP","src/particle.cpp"),("Shift/Mirror loops","src/particle.cpp"),("bisection in CoordinatesAtTime","src/particle.cpp")],
  state=[("X_current,P_current,A_current,t_current","state at last half step","src/particle.h"),("NP","number of points","src/particle.h")])
p("C05","Particle tracking obeys the relativistic equation of motion",
  "A tracked particle of any charge, mass, momentum, start time and step size moves as the relativistic Lorentz force dictates for the field at its position and time: it drifts straight without field, keeps its energy exactly in magnetic fields, gains momentum qE t in electric fields, does not drift off in crossed fields it is matched to, and is reversible; it follows Vay's published leap-frog scheme step by step and gives each particle the acceleration belonging to the recorded point. Tracking can be re-initialised at the last point, also with a different step size, and particles of one beam do not influence each other's motion in external fields.",
  ["inputs","histories"],"cross product of charges, masses, momenta (all octants, zero to ultra-relativistic), fields (all directions, magnitudes), time steps, and sequences of tracking phases up to depth 4",
  "Tests follow a few hand-picked electrons in one field each.",
  ["src/particle.cpp","src/bunch.cpp","src/beam.cpp"],
  [("InitVay/StepVay","src/particle.cpp"),("dispatch over bunches and particles","src/bunch.cpp, src/beam.cpp")])
p("C06","Fields of a moving charge are evaluated at the retarded source point",
  "The field of a tracked particle reported for any observation point and time is the Lienard-Wiechert field emitted from that point of its trajectory whose light signal arrives exactly then, wherever in the recorded history it lies; before the recorded start the particle is taken to have moved uniformly (also when it starts at a time other than zero), and no field is seen that would have to be emitted after the last recorded point. The result depends only on the trajectory, not on how many points precede or follow the emitting segment.",
  ["inputs","histories"],"trajectories of 1..9 points (straight, bent, accelerated, different speeds and start times) x observation points around and along the path x observation times before, at, between, and after every arrival time",
  "One electrostatic and one undulator comparison sample a handful of points far away from the trajectory with start time zero.",
  ["src/particle.cpp"],
  [("bisection and refinement in RetardedField(time,pos)","src/particle.cpp"),("extrapolation before first point","src/particle.cpp")])
p("C07","Recorded field traces conserve the time integral of the arriving field",
  "Accumulating a particle's radiation into a field trace adds to every time bucket the average over that bucket of the field arriving from the recorded trajectory segments (linear between arrival times), whatever the relation between trajectory steps and bucket width: no segment is lost, counted twice or smeared outside its arrival interval, and segments beginning before, ending after or covering the whole trace contribute exactly the part inside. Existing content of the trace (of at least two samples; shorter ones stay untouched) is added to, and traces of bunches and beams are the sum over their particles.",
  ["inputs"],"all placements of trajectories of 2..6 points relative to traces of 2..6 buckets (segments inside one bucket, spanning several, straddling or touching edges, entirely outside), step/bucket ratios below, at and above 1",
  "The single integration test uses one particle and one long trace comparing an overall integral.",
  ["src/particle.cpp","src/bunch.cpp","src/beam.cpp"],
  [("bucket arithmetic of integrateFieldTrace","src/particle.cpp")])
p("C08","Fields superpose linearly over particles, bunches, beams and lattice elements",
  "The field of a lattice, bunch or beam at any place and time is the sum of the fields of its members, independent of the order they were added or of their grouping; empty collections give zero, adding, removing and re-adding members changes the sum by exactly that member, and fields scale linearly with particle charge. Element lookup and removal address the right member and reject invalid indices with an exception without changing the collection.",
  ["histories","inputs"],"all sequences of add/remove/lookup up to depth 5 over a small set of elements, all groupings of up to 4 particles into bunches",
  "Tests use lattices with one element and never remove or query elements.",
  ["src/fields.cpp","src/bunch.cpp","src/beam.cpp"],
  [("Lattice element vector and summation","src/fields.cpp"),("RetardedField/integrateFieldTrace summation","src/bunch.cpp, src/beam.cpp")])
p("C09","Lattice elements produce their specified field where they are placed",
  "Every lattice element (homogeneous and background fields, planar and transverse-gradient undulator, hard- and soft-edge dipole, Gaussian wave and wave packet) yields at every point and time the field its documentation specifies relative to its position, orientation and reference time, and nothing outside its spatial or temporal extent, including exactly at its edges. Moving an element moves its field rigidly, and peak field, period, number of periods, gradient, wavelength, phase and rise/length parameters take effect as named, whether the element was created from code or from an input file.",
  ["inputs","configurations"],"grid of parameters x positions (inside, edges, fringe, outside, off-axis) x times for every element kind and construction route",
  "Tests check on-axis trajectories in two elements with one parameter set.",
  ["src/undulator.cpp","src/dipole.cpp","src/wave.cpp","src/fields.cpp"],
  [("LocalField of each element and frame transformation","src/undulator.cpp, src/dipole.cpp, src/wave.cpp, src/fields.cpp LocalizedField::Field")])
p("C10","Field traces behave as sampled functions of time under all operations",
  "Any sequence of arithmetic, copying, retardation, differentiation, projection and coordinate transformation of field traces equals the same operation carried out sample by sample: linear interpolation between samples, zero outside the covered time range, centred differences inside and one-sided at the ends. Size or timing mismatches and out-of-range accesses raise an exception and leave both operands unchanged; the Poynting integral equals the sum over samples times the time step.",
  ["histories","inputs"],"all operation sequences up to depth 3 over traces of length 0..5 with small integer fields, start times and steps",
  "Field trace algebra is only used indirectly in one test.",
  ["src/fieldtrace.cpp","src/fields.cpp","src/vector.cpp"],
  [("operators and accessors","src/fieldtrace.cpp")])
p("C11","Field files hold exactly the observed fields and can be read back",
  "The file written by every field observer (point, screen, meshed screen, snapshot) contains the field of every observation point and time sample at its documented place together with geometry and timing metadata that describe it; re-reading a written screen as a radiation source or a written mesh as an observer reproduces positions, timing and fields. Grids of every shape (odd, even, single row or sample) are stored without transposition, truncation or stale data.",
  ["inputs","configurations"],"all grid shapes 1..4 x 1..4 x 1..4 with distinguishable field values for every observer type, write/read/modify/write cycles up to depth 3",
  "Only one prepared meshed screen file is read in a test; no written file is ever read back.",
  ["src/screen.cpp","src/mesh.cpp","src/snapshot.cpp","src/point_observer.cpp","src/source_screen.cpp"],
  [("generateOutput / WriteFieldHDF5 of observers","src/screen.cpp, src/snapshot.cpp, src/point_observer.cpp"),("MeshedScreen file constructor, writeFile, writeReport","src/mesh.cpp"),("SourceScreen HDF5 import","src/source_screen.cpp")])
p("C12","Beam dump files contain every particle and can be used as input again",
  "A watch-point file of any beam contains one record per particle in order with its current position and momentum (HDF5), also time and the derived quantities (SDDS), and a header with particle number and total charge in the documented units. A beam dumped in SDDS form and read again as input has the same number of particles, the same total charge and the same coordinates up to the documented transport to a common time.",
  ["inputs","configurations"],"all beams of 0..3 bunches with 0..3 particles, momenta in all directions, dump at the start or after tracking, re-read along different propagation directions",
  "A prepared ELEGANT file is read in one test; no written dump is checked.",
  ["src/beam.cpp","src/bunch.cpp"],
  [("WriteWatchPointHDF5/SDDS","src/beam.cpp, src/bunch.cpp"),("Bunch constructor reading SDDS","src/bunch.cpp")])
p("C13","Logs and watch points record exactly the requested steps",
  "A beam-parameter, trajectory or probe log with interval n over a run of N steps contains one record for the initial state and one for every step divisible by n, in order and with the values of that very step; a watch point is written exactly at its step (including 0 and N) and not otherwise. Logs limited to a number of particles hold that many (or all, if fewer exist), each particle in its own fixed column.",
  ["histories","configurations"],"all run lengths 0..6, log intervals 1..7, watch steps -1..N+1, particle limits 0..n+1 and combinations thereof",
  "Tests use a single logger with one interval and only look at a few columns.",
  ["src/logger.cpp","src/logger.h","src/teufel_hybrid.cpp"],
  [("log_requested/update/WriteData","src/logger.h, src/logger.cpp"),("watch list handling in main loop","src/teufel_hybrid.cpp")])
p("C14","Invalid input decks are rejected, never silently misread",
  "An input deck missing a required section, element or attribute, or containing an unknown element kind, is rejected with an error before any tracking or output; a syntactically broken or absent file ends the program with a failure status. Removing, misnaming, duplicating or mis-typing any optional item or numeric value leaves every other setting as specified, with the documented default (zero for a missing number) in its place, and no input deck makes the program crash, hang or read unset values.",
  ["inputs","fault_sequences"],"every single-item deletion and renaming (and pairs) of complete input decks for every element, beam, tracking, observer and interaction kind",
  "All tests run valid decks.",
  ["src/parser.cpp","src/undulator.cpp","src/dipole.cpp","src/wave.cpp","src/fel1d.cpp","src/source_screen.cpp"],
  [("presence checks and IOexception in parser and element constructors","src/parser.cpp and element constructors")])
p("C15","Expressions in the input are evaluated once, in document order",
  "Every numeric attribute may be an arithmetic expression over the predefined physical constants and the variables assigned so far; each calculator statement is executed exactly once in document order (those inside an item, or at the top level, before the other content of that item or level), and later assignments do not affect earlier items. Undefined variables or malformed expressions yield the documented zero with a message naming the expression, and change no variable.",
  ["inputs","histories"],"all decks interleaving up to 4 assignments (including self-referential ones) and uses of the variables at every nesting level",
  "Only straight-line assignments at the top level occur in the tests.",
  ["src/parser.cpp","src/undulator.cpp","src/dipole.cpp"],
  [("parseCalc/parseCalcChildren/parseDouble with muParser","src/parser.cpp")])
p("C16","Beams are created with the requested particles, charge and phase-space",
  "A bunch created from a distribution, an input deck or a file has the requested number of particles with the requested charge and mass per particle, the requested reference position, time, direction and momentum, and offsets exactly as the distribution specifies; correlations add factor times the (mean-free) independent coordinate to the dependent one and change nothing else. Distributions keep every coordinate in its place under scaling, correlation, sub-setting and buffer transfer, and ignore or reject invalid indices without side effects.",
  ["inputs","histories"],"all operation sequences up to depth 3 on distributions of 1..4 points in 1..7 dimensions; all correlation index pairs including invalid ones; all bunch/particle input variants",
  "Tests check the average of one Gaussian bunch statistically.",
  ["src/bunch.cpp","src/parser.cpp"],
  [("Distribution methods and Bunch constructors","src/bunch.cpp"),("parseBeam","src/parser.cpp")])
p("C17","Reported beam parameters are the moments of the particle ensemble",
  "For every bunch the reported average time, position, momentum and energy, r.m.s. size, momentum spread, bunching factor and total charge equal the defining averages over its current particles, each particle weighted equally, for any number of particles and independent of their order; they follow additions, replacement and tracking of particles. Beam totals are sums over the bunches.",
  ["inputs","histories"],"all bunches of 1..4 particles with coordinates from a small alphabet (incl. equal, opposite, zero, large offset), all insertion orders, sequences of add/replace up to depth 4",
  "The bunch test compares averages of one random bunch within a wide statistical margin.",
  ["src/bunch.cpp","src/beam.cpp","src/logger.cpp"],
  [("avg*/rms*/delta/BunchingFactor/getTotalCharge","src/bunch.cpp")])
p("C18","The 1D FEL interaction evolves its field in lock-step with the beam",
  "The one-dimensional FEL field starts from zero (or its seed) on its co-moving grid, slips forward over the bunch at the speed of light, is driven only by the transverse motion of the particles on the grid, each contributing its own charge to the documented cell, and is seen by particles as a transverse wave (E perpendicular to B perpendicular to propagation, |E|=c|B|) of the grid cell they are in; after any number of steps the field equals that of an independent evaluation of the documented recurrence. Particles or queries outside the grid or at a time that does not match the step raise an exception instead of being misplaced. Field logs contain the field of exactly the requested steps, and the constructor's defaults and the input-deck route describe the same field.",
  ["inputs","histories"],"all sequences of steps up to depth 5 x grid sizes 2..8 x particle placements on cells, grid edges, between and outside x charges and transverse momenta x log intervals",
  "Two long statistical runs compare growth with an analytic value using one parameter set.",
  ["src/fel1d.cpp"],
  [("init/step/Field/write_output","src/fel1d.cpp")])
p("C19","Observer buffers carry the complete field set between processes",
  "For every observer the reported buffer size is exactly the number of values written and read; reading back an unmodified buffer leaves the observer unchanged, and summing the buffers of several observers that each saw part of the sources gives the observation of all sources together. Field values set at one grid position and sample are returned at that position and sample only; out-of-range accesses and wrong buffer sizes raise an exception and change nothing.",
  ["inputs","histories"],"all grid shapes up to 4x4x4, all cells, all sequences of set/get/buffer/restore up to depth 3 on every observer type",
  "Buffers are only used in parallel runs, which are not tested.",
  ["src/screen.cpp","src/mesh.cpp","src/snapshot.cpp","src/point_observer.cpp"],
  [("getBufferSize/getBuffer/fromBuffer/setField/getField","observer classes")])
p("C20","Failures while reading or writing data files are reported, never swallowed",
  "If any HDF5 or SDDS library call fails while an output file is created, written or closed, the routine reports it by its documented error status or an exception with a message and never claims success, and the program prints a message and does not crash or hang; other outputs of the same run are still produced (a failure while the set-up is still being read may end the program with an error status). If any call fails while a field or particle file is read, the result is an error or an empty object (or, if only the release of a resource failed, the complete data), never partially read data presented as valid. A mesh or screen file that contradicts itself (counts and data-set sizes disagree, parts or attributes missing or of the wrong type, triangle corners that do not exist, truncated file) is rejected by an exception without any invalid memory access.",
  ["fault_sequences"],"every single call (and its position) to the HDF5 and SDDS libraries failing in each read and write routine",
  "No test injects a failing file operation.",
  ["src/beam.cpp","src/bunch.cpp","src/logger.cpp","src/screen.cpp","src/mesh.cpp","src/snapshot.cpp","src/point_observer.cpp","src/source_screen.cpp","src/fel1d.cpp"],
  [("status checks after every HDF5/SDDS call","I/O routines")])
p("C21","Objects own and release their memory correctly in every use order",
  "Creating, filling, copying, querying and destroying particles, bunches, beams, distributions, lattices, field traces, observers, loggers and screens in any valid order neither reads nor writes memory outside live objects, nor frees anything twice or with the wrong method; destroying a container releases each member once, repeated create/use/destroy cycles do not accumulate memory or open files, and no result depends on the former contents of memory.",
  ["histories"],"all operation sequences up to depth 3..5 per class family on small instances under a checking allocator",
  "Tests run each object once, without memory checking.",
  ["src/beam.cpp","src/bunch.cpp","src/fields.cpp","src/mesh.cpp","src/screen.cpp","src/snapshot.cpp","src/source_screen.cpp","src/point_observer.cpp"],
  [("constructors/destructors and owning pointer vectors","all classes")])
p("C22","Meshed screens describe their surface consistently",
  "For any triangle mesh, the cell positions, areas, normals, local coordinate systems, neighbourhoods and total area/energy reported are those of the triangles as given: local axes form a right-handed orthonormal system following the orientation of the triangle, each neighbourhood lists exactly the cells sharing a vertex, and energy is the area-weighted sum of the Poynting flux through the oriented cells. Setting a trace on one cell affects this cell only.",
  ["inputs"],"all meshes made of up to 4 triangles over a small lattice of vertices (shared, touching, disjoint, both orientations, non-planar)",
  "A single regular screen is read in the diffraction test.",
  ["src/mesh.cpp"],
  [("MeshedScreen::init, get_Neighbourhood, total_power","src/mesh.cpp")])
p("C23","Field propagation between meshed screens is correct for every thread schedule",
  "The propagation tool computes on every target cell the diffraction (Kirchhoff) integral of the source-screen fields with proper retardation, timing window and orientation, independent of the number of threads and of their scheduling, and linear in the source fields. Missing files or wrong arguments end it with a failure status and no output.",
  ["schedules","inputs"],"all interleavings (bounded preemptions) of 1..3 threads and single-cell impulses on small meshes; argument and file faults",
  "The propagation program is never run by the test-suite.",
  ["src/propagate.cpp","src/mesh.cpp","src/fieldtrace.cpp"],
  [("parallel loop over target cells","src/propagate.cpp")])
p("C24","Mirror reflection of meshed fields is correct for every thread schedule",
  "The reflection tool replaces on every cell of the source mesh the incident field by the one reflected on an ideal conductor (tangential electric and normal magnetic component reversed) and yields on every target cell the diffraction (Kirchhoff) integral of these reflected fields with proper retardation, timing window and orientation, independent of the number of threads and of their scheduling, and linear in the incident fields. Missing files or wrong arguments end it with a failure status and no output.",
  ["schedules","inputs"],"all interleavings (bounded deviations from the default schedule) of 2..4 threads and single-cell impulses on small meshes of all orientations; argument and file faults",
  "The reflection program is never run by the test-suite.",
  ["src/reflection.cpp","src/mesh.cpp","src/fieldtrace.cpp"],
  [("parallel loop over target cells, field reflection per source cell","src/reflection.cpp")])
p("C25","A run performs exactly the configured simulation",
  "Running the program on an input deck tracks every particle through all configured lattice and interaction fields for exactly the configured number of steps of the configured size, and each requested output (logs, watch points, snapshots, fields on observers) equals what the same objects yield when driven step by step through the library. Interaction fields act on the beam during tracking but do not appear in lattice-field observations, and every process ends normally.",
  ["configurations","histories"],"all combinations of element kinds, step numbers 0..4, watch/log/observer selections",
  "Three decks are run end to end and compared with analytic expectations within percents.",
  ["src/teufel_hybrid.cpp","src/parser.cpp"],
  [("main program sequence","src/teufel_hybrid.cpp")])
p("C26","A recorded screen used as a source re-emits the recorded field",
  "A screen file used as field source in a lattice radiates from each of its cells the field given by the diffraction integral of the recorded fields with the retardation of each cell, placed, oriented and timed as the input specifies, linear in the recorded data and zero before the first and after the last signal can arrive. Scaling, moving or re-timing the source has exactly the corresponding effect on the emitted field.",
  ["inputs"],"single-cell single-sample impulses over all cells and samples of small screens x observation points x times before, during and after arrival",
  "One diffraction test compares a single configuration within percents.",
  ["src/source_screen.cpp"],
  [("SourceScreen::LocalField retarded interpolation","src/source_screen.cpp")])
p("C27","Observers sample the field at the configured places and times",
  "Every observer evaluates the source at exactly the grid points and times its parameters describe: a point at its position, a screen at its centre plus integer multiples of its step vectors, a snapshot on its grid at its one time, a mesh at its cell centres, each time sample at start plus index times step; the reported coordinates are those used. The recorded value is the source's field there (instantaneous for lattices, bucket-averaged or as documented for particle sources) and repeated integration replaces or accumulates as documented.",
  ["inputs","configurations"],"all grid shapes 1..4 in each direction x step vectors x sources with position- and time-coded fields",
  "One screen geometry is checked by energy only.",
  ["src/screen.cpp","src/snapshot.cpp","src/point_observer.cpp","src/mesh.cpp"],
  [("CellPosition/integrate","observer classes")])
p("C28","Input decks create the objects they describe",
  "For every documented element, beam, tracking, logging, watch and observer item of the input language, the object created behaves as one built in code with the same parameters, and items are created in document order in the number given. Items do not leak settings into one another.",
  ["inputs","configurations"],"all decks with up to 3 items from the documented menu with distinguishing parameter values",
  "Three decks use a small part of the menu.",
  ["src/parser.cpp"],
  [("parseLattice/parseBeam/parseTracking/parseObservers","src/parser.cpp")])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    for d in P: assert len(d['title'])<=80,d['id']
    open(out,"w").write("".join(json.dumps(d)+"\n" for d in P))
