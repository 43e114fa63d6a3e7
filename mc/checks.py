# property -> how its check is built and run
def std(name,*h,**k): return dict(name=name,harness=["../mc/mc.cpp"]+list(h),**k)
CHECKS={}
NOT_APPLICABLE={}
def C(pid,bins,level="model_checking",bounds="",rule="",assumptions=(),technique=None):
    CHECKS[pid]=dict(bins=bins,level=level,bounds=bounds,rule=rule,assumptions=list(assumptions),technique=technique)
C("C04",[std("c04","c04.cpp")],bounds="all sequences of 13 operations up to depth 6 (thorough 7); trajectories of 1..24 (40) points; beyond the exhaustive range: histories of up to 2100 points with every node and segment queried",
  assumptions=["times handed to storeTrajectoryPoint are increasing for interpolation queries","tracking is not continued after a mirror without re-initialisation"])
C("C03",[std("c03","c03.cpp")],bounds="all sequences of 13 operations (4 of them transfers) up to depth 5 (thorough 7); all beams of up to 4 (5) bunches of 0..3 particles, 4 transfers each; beyond the exhaustive range: beams and trajectories copied after 33..2100 stored points",
  assumptions=["number of probe particles requested does not exceed the particles of the beam"])
C("C05",[std("c05","c05.cpp")],bounds="4 charges x 3 masses x (1+14..26 directions x 4 magnitudes) momenta x 16 fields x 3 step sizes x 8 steps, 26 directions of matched crossed fields, all sequences of up to 4 (5) tracking phases out of 18; 6 ways of creating particles; beyond the exhaustive range: tracking phases of up to 2100 steps, runs of up to 5000 steps, beams of 60 bunches",
  assumptions=["the published Vay scheme is the specified integrator (src/particle.h documentation)","|charge/mass| <= 2 in electron units"])
C("C06",[std("c06","c06.cpp")],bounds="6 motion kinds x 1..9 (17) trajectory points x 4 start times x 8 observers x all arrival nodes, 3 times per segment, 6 before, 3 after; all sequences of up to 4 (6) of 10 operations on a trajectory (queries, extension, tracking, mirroring, shifting, restarting, copying), all words of up to 3 (4) of 8 changes with one query repeated after each; beyond the exhaustive range: trajectories of up to 2100 points with arrivals in every part",
  assumptions=["observers farther from the trajectory than one step length (documented validity range of the refinement)","tolerance: field variation over 5e-5 of a trajectory step"])
C("C07",[std("c07","c07.cpp")],bounds="traces of 2, 3, 6 buckets in 4 timings x all increasing arrival-time sequences of up to 4 (5) nodes out of 20..22 positions incl. bucket/trace edges and their +-2 ulp neighbours, far outside on both sides; 0..3 bunches x 0..3 particles x 5 step/bucket ratios x trajectories up to 40 points; beyond the exhaustive range: segment/bucket ratios 1e-3..1e-8, 300 particles, 70 bunches",
  assumptions=["arrival times increase along the trajectory (particles slower than light)"])
C("C10",[std("c10","c10.cpp")],bounds="all sequences of 19 operations up to depth 4 (5 for every third start) from 15 pairs of traces with 0..9 samples, matching and mismatching in size, start and step; interpolation at 26 times after every step (samples, between, 1e-7 beside samples and ends, far off); beyond the exhaustive range: traces whose timings differ by 1e-15..1e-3 of a step",
  assumptions=["the target's contents after retard() reported a zero field are unspecified"])
C("C09",[std("c09","c09.cpp")],bounds="all elements (planar/gradient undulator, hard/soft edge dipole, wave, wave packet, homogeneous field) x 2..3 values per parameter x 2 placements x (code, deck) x 204 positions (inside, edges, fringe, outside, off axis) x 3..8 times, twice for travelling waves; all words of up to 3 (4) set-ups of two elements of a kind, one point queried after each",
  assumptions=["exactly on the plane of a hard-edge dipole either value is accepted","plane normals are unit vectors","at least one undulator period"])
C("C08",[std("c08","c08.cpp")],bounds="all sequences of 7 lattice operations (add, re-add, remove first/second/last, invalid accesses, queries) up to depth 5 (thorough 7); all distributions of up to 4 elements over nested lattices; all orders of 5 element kinds; all words of up to 3 (4) of 14 elements exchanged one for the other with the same points queried before and after; all ordered arrangements of up to 4 (5) particles into bunches with and without empty bunches; all sequences of 8 membership operations up to depth 5 (6), queried after every operation up to depth 4; 15 observation points/times and traces each; beyond the exhaustive range: lattices and beams of up to hundreds of members",
  assumptions=["an element removed from a lattice belongs to the caller"])
C("C16",[std("c16","c16.cpp")],bounds="all sequences of 19 distribution operations (valid, invalid and out-of-range arguments) up to depth 4 (thorough 5) on distributions of 1, 3, 6 dimensions x 0, 1, 3 points; 16 (64) seeds of the random source; bunches from distributions of 1..8 dimensions; all index pairs (-1..6) of bunch and deck correlations followed by all second pairs; deck bunches with all 128 subsets of spread parameters x 3 set-ups; SDDS files of 0..5 particles x 9 directions x 2 encodings x 2 routes; 9 name lengths; 14 broken files; beyond the exhaustive range: distributions of 130 and 1025 points, files of 64 and 257 particles",
  assumptions=["the random source is replaced by a deterministic one (enumerated seeds); statistical limits on gaussian/uniform spread are checked for exactly these seeds","transverse axes of an SDDS import with a direction other than z are only required to be a left-handed orthonormal set containing the x or z projection"])
C("C17",[std("c17","c17.cpp")],bounds="all ordered selections of up to 4 of 7 (thorough 5 of 8) particle states with extreme spreads, offsets, charges and times; all rotations of 7, 16, 33 particles; all sequences of 9 operations (add, replace, track, shift, correlate, copy, clear) on up to 3 particles up to depth 6 (7), all moments checked after every step; beyond the exhaustive range: up to 1025 particles or bunches",
  assumptions=["moments of an empty bunch are unspecified","rounding of the implementation may be up to 1e-11 of the largest coordinate (1e-14 of the offset for r.m.s. sizes)"])
C("C27",[std("c27","c27.cpp")],bounds="point/screen/snapshot/mesh of all grid shapes 0..4 x 0..4 (thorough 5) and 0..3 (4) samples x sources lattice (3), beam (3), bunch (2) x all sequences of up to 4 (5) operations (integrate, switch source, zero, overwrite, output); 648 (1152) placements of screens and snapshots incl. zero, skew and negative steps; stored particle coordinates at 78 times x 3 beams; beyond the exhaustive range: grids and time series of up to 1200 points per axis, recorded coordinates of up to 1050 particles in 150 bunches",
  assumptions=["the retarded field of particle sources is taken from the source itself (decided by C06/C07)"])
C("C19",[std("c19","c19.cpp")],bounds="point/screen/snapshot/mesh of all grid shapes 0..4 x 0..4 (thorough 6) and 0..3 (5) samples (mesh also without timing), three source types: every (cell, sample, component) set alone; all pairs of 4 contents exchanged by buffers; 11 wrong buffer sizes, 10 out-of-range accesses per axis; all partitions of 5 (6) particles / 4 (5) elements observed separately and summed, with and without an idle process; beyond the exhaustive range: grids and time series of up to hundreds of points per axis",
  assumptions=["the order of values in the buffer is not specified"])
C("C11",[std("c11","c11.cpp")],bounds="point/screen/snapshot/mesh of all grid shapes 1..4 x 1..4 (thorough 6) and 1..4 (6) samples, empty shapes, one large each; three source types; 3 contents x 4 former states of the output file (none, other shape, foreign contents, own former output), second output, re-reading of meshes through two generations; every cell of screens up to 3x3 used as source; 12 orientations x 125 scales and timings per observer (quick a third); sequences of recorded particle coordinates of a snapshot, at all times before, at, within and after trajectories of 1..6 points; beyond the exhaustive range: grids and time series of up to hundreds of points per axis",
  assumptions=["dimensions, names and attributes as documented in the headers"])
C("C22",[std("c22","c22.cpp")],bounds="flat and bent strips facing 23 x 20 (thorough 45 x 40) directions incl. the axes; all ordered lists of up to 3 (4) of the 19..20 triangles over 6 points; open and closed fans of 3..40 cells; all 5^4 field patterns on 4 cells x 6 orientations x 2 windings; all sequences of 7 cell operations of length 5 (7); beyond the exhaustive range: meshes of up to 600 cells",
  assumptions=["cell normals within 45 degrees of the average normal (documented requirement) for the local axes"])
C("C12",[std("c12","c12.cpp")],bounds="all beams of up to 3 (thorough 4) bunches of 0..3 particles x 6 preparations (fresh, 1 and 7 steps, cleared trajectories, shifted, positive charge) x 3 former contents of the file, HDF5 and SDDS of beam and bunches, re-reading; all sequences of 6 operations (step, dumps to same/other file, add bunch, clear) of length 5 (7); up to 4097 particles, up to 90 bunches",
  assumptions=["re-reading is defined for electrons moving in +z direction; transport to a common time with constant velocity"])
WRAP=["-Wl,--wrap="+f for f in "pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort malloc free calloc realloc".split()]
SCHED=dict(variant="sched",ldflags=WRAP,hflags=["-O2"])
C("C01",[std("c01","c01.cpp","sched_rt.cpp",**SCHED)],bounds="all schedules of 2..4 threads with up to d deviations from the default schedule (delay bounding; d raised per case from 1 to 8 until the next round would exceed 6000 schedules, thorough 60000; small cases are exhaustive) for screens/meshes/snapshots of 1..9 points, sources beam, bunch, lattice with each element kind, all coordinates and times different from cell to cell; data-race detection (vector clocks) on every memory access of every schedule",
  assumptions=["scheduling points at every OpenMP/atomic/lock operation; sound between them because every schedule is also checked to be free of data races","progress output (only after 60 s) not exercised"],
  technique="stateless model checking of the real code: delay-bounded exhaustive schedule enumeration under a controlled OpenMP runtime + happens-before race detection")
TECH_SCHED="stateless model checking of the real code: delay-bounded exhaustive schedule enumeration under a controlled OpenMP runtime + happens-before race detection; exhaustive enumeration of impulse inputs against an independent evaluation"
for pid,tool in (("C23","propagate"),("C24","reflection")):
  C(pid,[std(pid.lower(),pid.lower()+".cpp","sched_rt.cpp",mains=[tool+".cpp"],**SCHED)],bounds="37 scenes (flat/bent/slightly bent/flipped strips of 1..9 cells, fans of 7, 9 and 26 cells, screens facing x and y, targets in the plane of the source, grazing, from 3 cm to 1 km, very unequal cells and cell times, one sample, no overlap) x every unit impulse (cell x sample x component) + 3 field patterns x 2 scalings; all schedules of 2..4 threads x 1..3 target cells with up to d deviations (d raised from 1 to 8 until the next round would exceed 600 schedules, thorough 4000); scenes with hundreds of source cells, targets and samples; 11 failure cases",
    assumptions=["scheduling points at every OpenMP/atomic/lock operation; sound because every schedule is also checked to be free of data races","the spatial derivatives are those of the least-squares parabola through the neighbourhood (the method the tool implements)","progress output (only after 30 s) not exercised"],technique=TECH_SCHED)
HYB=dict(mains=["teufel_hybrid.cpp"])
C("C02",[std("c02","c02.cpp","hyb.cpp",**HYB)],bounds="complete program on 1..5 (thorough 7) simulated processes: all splits of 1..7 particles over bunches (quick: a third of those of 6 and 7); 9 lattices x 8 observers x with/without FEL x 0, 1, 4 steps on 2, 3 processes; everything at once; all schedules of 2, 3 (4) processes with 1 (2) deviations from the default order at any MPI call, synchronising and eager collectives (up to 120, thorough 1500 schedules per deck); files written by two processes detected",
  assumptions=["MPI is replaced by a simulation of its specification (every process a separate address space, one running at a time, a choice at every call); between MPI calls processes interact through files only, conflicting file accesses are detected","probe logs contain particles of the first process only (documented) and are compared for single-particle beams","random numbers of process 0 are the same in all runs, others differ"],
  technique="stateless model checking of the real program: exhaustive delay-bounded exploration of process orders at MPI calls under a simulated MPI library, differential against the single-process run")
C("C25",[std("c25","c25.cpp","hyb.cpp",**HYB)],bounds="complete program against step-by-step execution through the library: all sets of up to 3 (thorough 8) of 8 lattice elements x 0..4 steps x with/without FEL, all element orders with repetition, 7 beams x with/without logs x all sets of up to 2 (8) of 8 observers x 1, 4 steps; 0..2 interactions x 3 step sizes x probes x progress reports x 2 seeds; 2..4 processes; up to 120 steps; beyond the exhaustive range: a crowd (70 elements, 103-particle bunches, 12 observers)",
  assumptions=["the reference uses the library objects, whose behaviour is decided by the other checks","MPI simulated as in C02"],
  technique="exhaustive enumeration of run configurations of the real program under a simulated MPI library, differential against a step-by-step reference driver")
C("C13",[std("c13","c13.cpp","hyb.cpp",**HYB)],bounds="library: all run lengths 0..6 (thorough 9) x intervals 1..7 (10) x 4 bunch structures x particle limits 0..6 x former contents, logs written, continued and written again; program: run lengths 0..5 (7) x intervals 1..N+2 x watch steps -1..N+1 x one/several watches and 1/2 processes; beyond the exhaustive range: runs of 40..1025 steps, bunches of up to 300 particles",
  assumptions=["intervals of at least 1","moments themselves are decided by C17"])
C("C28",[std("c28","c28.cpp","hyb.cpp",**HYB)],bounds="all sequences of up to 3 (thorough 4 for the lattice) of 17 lattice, 14 beam (quick: a quarter of the triples), 9 tracking and 15 observer items (quick: an eighth of the triples); all combinations of 16 optional parts of a bunch (quick: up to 3, from 13 on and every 17th); all orders of the parts of a dipole, bunch, interaction and screen; all combinations of the optional parts of the observers in 4 surroundings; meshes that already hold fields; numbers and intervals of probes; 24 form factors; all orders of sections with everything at once; beyond the exhaustive range: sections of up to 70 items",
  assumptions=["an independent interpreter of the input language builds the expected objects through the code interface (whose behaviour is decided by the other checks)","random numbers replaced by a deterministic source; if they are drawn differently only mean and r.m.s. are compared"],
  technique="model checking: exhaustive enumeration of input decks up to a size on the real parser against an independent interpreter (conformance of created objects and their outputs)")
DECKTECH="model checking: exhaustive enumeration of input decks up to a size on the real parser and program against an independent interpreter (conformance of verdict, created objects and their outputs)"
C("C15",[std("c15","c15.cpp","hyb.cpp",**HYB)],bounds="every numeric attribute of every menu item (55 items) in 11 expression forms; 50 expressions (constants, precedence, functions, malformed) in 3 places; 13x13 variable names x 4 values; all sequences of up to 3 (background 4; thorough 5) of 7 statements and 3 nestings of each of 17 kinds of items; all placements of statements over 6 levels of a bunch, 4 of an import and 10 between the sections",
  assumptions=["within a section statements and items are processed in document order, statements of the root and of an item before everything else in them (as implemented; the manual's 'definitions first' agrees for decks that define before use)","an expression that cannot be evaluated yields the documented zero and a message"],technique=DECKTECH)
C("C14",[std("c14","c14.cpp","hyb.cpp",**HYB)],bounds="every single edit (delete, rename, duplicate nodes; delete, rename, 8 values of attributes) of 57 decks, all pairs of deletions/renamings and 1/23 of the other pairs (thorough: all pairs); complete program: every single edit of two complete decks, 1 and 2 processes; 20 broken files and truncations every 37 (thorough 1) bytes; unusable command lines",
  assumptions=["numeric attributes that are missing or not computable are read as zero with a message (documented)","negative numbers of particles, cells or samples are left open"],technique=DECKTECH)
def _wraplist():
    import re,os
    return ["-Wl,--wrap="+m for m in re.findall(r"^W\((\w+),",open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","harness","wraplist.h")).read(),re.M)]
C("C20",[std("c20","c20.cpp","fault.cpp","hyb.cpp",mains=["teufel_hybrid.cpp","propagate.cpp","reflection.cpp"],ldflags=_wraplist())],bounds="every single call into the HDF5 and SDDS libraries made by 60 kinds of output (point/screen/snapshot/mesh observers of 3 sizes, two sources, mesh copies, watch points and bunch dumps of 4 beams, parameter/trajectory/probe logs, FEL field logs) and 5 readers, failing unexecuted, failing after its work, or failing with all later ones (thorough: also all pairs); files limited to 13 (65) sizes by the operating system; every single and 1/7 (all) of the pairs of contradictions between counts, sizes, types and parts of mesh and screen files; every corner of every cell out of range; files cut at 41 (401) places; every call of the complete program with 11 output files (1 process; every 9th on 2, thorough all) and of the propagation and reflection programs",
  assumptions=["a failing library call returns its documented failure value","failures of error-stack functions (H5E*) are not considered","failure of a call that only releases a resource after everything was read may leave the complete data"],
  technique="model checking: exhaustive enumeration of fault positions (every library call of every input/output history, all pairs in the thorough run) on the real code under a fault injector")
C("C21",[std("c21","c21.cpp","hyb.cpp",**HYB),std("c21fill","c21.cpp","c21fill.cpp","hyb.cpp",variant="plain",**HYB)],bounds="all sequences of operations up to a depth per family: particles (16 operations, depth 5), distributions (25, 4), bunches (21, 4), beams (14, 5; with files 15, 3), lattices (16, 4), field traces (27, 3), logs (12, 5), FEL fields (9, 5), screens as sources (7, 4), the four observers x three sources (11..13, 4; with files 8..11, 5); thorough one deeper; 700 particles, 150 bunches or elements, 700 log records, 3000 steps; all input decks with one (a fifth, thorough all, of those with two) of 60 items",
  assumptions=["objects are copied by the copy constructors taking a pointer (FieldTrace also by value) only; the implicit copies of the other classes are not meant to be used","operations are in the documented order (tracking is set up before stepping, meshes are initialised)"],
  technique="model checking: exhaustive enumeration of operation sequences on the real classes up to a depth, under an address and undefined-behaviour checker, exact accounting of memory and open files over repeated cycles, and a differential run with different contents of fresh memory")
C("C18",[std("c18","c18.cpp")],bounds="free propagation: grids of 2..16 (thorough 40) cells x 4 directions x 3 seeds x 3 log intervals over 2N+5 steps; all sequences of 3 (4) of 14 particle placements (cells, between, edges, outside, wrong time, wrong step) x 4 grids x 4 (12) geometries; all sets of up to 3 (5) of 8 particles x 3 bunch splits x 3 grids x 6 steps; a misplaced particle at any position; log intervals 1..8 x run lengths 0..10 (20); all words of up to 6 (8) steps with no bunch, an empty bunch, a particle; beyond the exhaustive range: grids of up to 1000 cells, up to 1025 particles",
  assumptions=["the documented recurrence: d'Alembert stencil without derivative terms at the head, Gaussian particle pulse of 2 cells r.m.s. cut at 10 cells, mode area pi w^2/2","records: initial field, then every step divisible by the interval"],
  technique="model checking: exhaustive enumeration of operation sequences on the real FEL_1D up to a depth in lock-step with an independent model of the recurrence (every state compared)")
C("C26",[std("c26","c26.cpp")],bounds="15 shapes (up to 4x4 cells, 1..7 samples) x 28 geometries (7 orientations incl. oblique ones and axes leaning out of the plane x 4 placements/timings) x every unit impulse (cell x sample x component; quick: a seventh for the larger shapes) x 13 points on both sides and in the plane x times before, at, between and after every arrival; 3 full patterns each scaled, moved, superposed, energies; 216 (360) files written by a screen observer read as source; beyond the exhaustive range: screens of up to hundreds of cells; results independent of the order of queries",
  assumptions=["field of a cell: documented two-term Kirchhoff form with trace and centred derivative interpolated linearly","instants within 1e-6 steps of the first/last sample excluded (the field jumps there)","grid axes perpendicular to each other (how others are to be squared is left open)"],
  technique="model checking: exhaustive enumeration of impulse inputs on the real code against an independent evaluation of the diffraction integral")
