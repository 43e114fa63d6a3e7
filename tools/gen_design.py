#!/usr/bin/env python3
# writes DESIGN.md from properties.jsonl, mc/checks.py, known_findings.txt, seeded/*/meta.json, tools/seed_results.txt and the texts below
import json,os,sys,glob,re
T=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(T); sys.path.insert(0,V+'/mc')
import checks
P=[json.loads(l) for l in open(V+'/properties.jsonl')]
# id: (how / oracle, what tests cannot reach)
D={
'C01':("The library is compiled with gcc's OpenMP lowering and `-fsanitize=thread` instrumentation but linked with our own OpenMP runtime (`harness/sched_rt.*`): every GOMP_*/omp_*/atomic/lock entry point and thread end is a scheduling point at which the explorer chooses the next thread. All schedules reachable with up to d deviations from the default order are executed (stateless search with replay prefixes; d is raised until the next round would exceed the bound, small cases become exhaustive). In every schedule a vector-clock detector checks every memory access for data races, which makes the restriction to these scheduling points sound. Oracle: result bit-identical to the one-thread execution.","Races and mixed-up private variables manifest in particular interleavings only; the tests run one."),
'C02':("The real `main` of teufel_hybrid runs in N forked processes under a simulated MPI library (`harness/hyb.cpp`): every MPI call stops the process, a controller picks the next process (a choice point), matches collectives and messages per the MPI standard (type, count, root, order), reports deadlock and mismatch, and records which process writes which file. All orders with a bounded number of deviations are enumerated. Oracle: every output file equal to that of the 1-process run up to summation rounding.","Tests use one process and one distribution of particles."),
'C03':("Sequences of operations (create, track, clear, shift, reserve, serialize/restore/copy ...) are enumerated on real ChargedParticle/Bunch/Beam objects in lock-step with a plain-record model (`refparticle.h`); every state is compared, buffers are allocated with the exact reported size under AddressSanitizer.","Tests transfer one freshly tracked particle."),
'C04':("All sequences of operations on real particles in lock-step with a list-of-points model; after every operation every point, the current coordinates, interpolation at fixed times and out-of-range behaviour are compared.","History dependent: last points, re-initialisation, repeated shift/mirror."),
'C05':("Every combination of particle, field and step from the grid is stepped with the real integrator in lock-step with an independent long-double implementation of the published Vay scheme, plus the invariants (energy in magnetic fields, E x B matched drift, reversibility); all sequences of tracking phases.","A tracking test samples a single particle in an undulator."),
'C06':("For each enumerated trajectory and observer the independent reference solves the light-cone equation by bisection on the recorded polygon and evaluates the Lienard-Wiechert field; observation times are placed exactly at and between all arrival nodes.","Edges between segments, before the start, after the end."),
'C07':("Trajectories are constructed backwards from enumerated arrival-time patterns (relative to bucket edges, with +-2 ulp neighbours); the oracle integrates the piecewise linear arriving field over every bucket independently.","Bucket-edge coincidences are measure-zero in tests."),
'C08':("Operation sequences on lattices/bunches/beams in lock-step with a list model; fields of the whole are compared with the sum of fields of separately constructed members.","Tests build each collection once."),
'C09':("The documented field of each element is re-implemented from the documentation (headers, manual) and compared at every grid position/time including exactly the edges, for elements made by code and by deck.","Tests check a few on-axis values."),
'C10':("All operation sequences on real traces in lock-step with a vector model.","Histories of mismatching traces, aliasing."),
'C11':("Files are written by the real observers and read by independent HDF5/SDDS readers; all shapes x former file contents; re-reading through the code's own readers.","Tests never read files back."),
'C12':("As C11 for beam dumps; round trip through the SDDS import.","Tests never re-read a dump."),
'C13':("Runs of the library and of the complete program; files read independently and compared with the recorded history.","All combinations of interval, length, limit."),
'C14':("Grammar of complete decks; all single (and pairs of) edits run through the real parser in-process and the complete program; an independent interpreter of the input language (`refdeck.h`) decides accept/reject and the objects expected.","Tests use valid decks only."),
'C15':("Independent expression evaluator and scoping interpreter; every attribute x every expression form.","Tests use few expressions."),
'C16':("Operation sequences on Distribution/Bunch with a deterministic random source in lock-step with a model; decks and SDDS files with all subsets of options.","Random numbers make tests statistical."),
'C17':("Long-double recomputation of every moment after every step of every sequence.","Extreme spreads/offsets and histories."),
'C18':("Independent implementation of the documented recurrence in lock-step with FEL_1D; every cell compared after every step; error cases must raise and leave the state unchanged.","Never checked numerically by tests."),
'C19':("All shapes and every single unit value through buffers; partitions of sources.","Never done by tests."),
'C20':("A fault injector wraps every function of the HDF5 and SDDS libraries at link time (`harness/wraplist.h`, `fault.*`); a history is first recorded, then repeated once for every call position (and pairs) with the call failing. Outputs must be reported as failed; readers must fail or deliver the complete data. Malformed files are generated by enumerating contradictions.","Needs failing media / corrupted files."),
'C21':("All operation sequences per family of classes under ASan/UBSan, with exact accounting of allocated bytes, file descriptors and HDF5 objects over repeated cycles, and again with `operator new` filling memory by three patterns (results must agree bit for bit; release method and block ends checked).","Tests run each object once without checking memory."),
'C22':("All triangle lists over small vertex sets, all facings; geometric quantities recomputed independently.","One regular screen is tested."),
'C23':("The real propagate program under the controlled OpenMP runtime of C01 (all schedules with bounded deviations, race detection) and every unit impulse against an independent Kirchhoff evaluation.","Never run by tests."),
'C24':("As C23 for the reflection program.","Never run by tests."),
'C25':("The real program (simulated MPI) against a step-by-step driver using the library objects (`refrun.h`), for all combinations.","Combination of items; tests check one output each."),
'C26':("Every unit impulse (cell x sample x component) of enumerated screens evaluated by SourceScreen and by an independent evaluation.","Tests check one beam-like screen."),
'C27':("Sources that reveal where and when they are asked (recording fields); all grids and operation sequences.","Single configurations only."),
'C28':("All short sequences of items; objects created by the parser compared with those the independent interpreter builds in code.","Single decks only."),
}
HEAD='''# Model checking lehnertu/TEUFEL

TEUFEL tracks charged particles through lattice fields and computes the electromagnetic fields they radiate (OpenMP threads, MPI
processes, XML input decks, HDF5/SDDS files). All 28 properties in `properties.jsonl` are decided by one family of technique: **model
checking, i.e. exhaustive enumeration of bounded sets of executions on the real code**. There is no sampling and no solver: every
check enumerates a stated set of schedules, process orders, fault positions, operation sequences or small inputs, executes every element
of it on objects compiled from /repo's current tree, and compares *every* state reached (not only the end) with an independent model
running in lock-step. Because model and implementation execute the same traces step by step, model-to-code conformance is checked on
every transition; no separate abstract model exists that could drift from the code.

No property was left out (`not_applicable` is empty). Properties over real-valued inputs (fields, trajectories) are decided over
grids chosen so that every branch boundary and ordering of the code's case distinctions is hit (segment/bucket edges, element edges,
+-ulp neighbours); between the grid points the claim is not exhaustive, which is stated as bounds.

## Machinery

- `check Cnn quick|thorough` (bash, calls `mc/run.py`): builds the harness of the property from /repo's current sources (content-hashed
  object cache in `/verif/.build`), runs 8 shards in parallel, merges, writes `evidence/Cnn.json`, prints `VIOLATION` or `KNOWN-FINDING`
  lines. A replay file holds the case id; `python3 mc/run.py --replay FILE` re-executes exactly this case.
- `mc/build.py`: variants `asan` (ASan+UBSan), `plain`, `sched` (tsan instrumentation + own OpenMP runtime), link-time wrapping for C20.
  Only public headers/behaviour are used; private members are not accessed, nothing is matched textually.
- `mc/mc.h`: enumeration support (cases, sharding, transitions, states, forked isolation of cases with time-outs, failure keys).
- `harness/`: `sched_rt.*` controlled OpenMP scheduler and happens-before race detector; `hyb.*` simulated MPI; `fault.*`, `wraplist.h`
  fault injector; `refparticle.h`, `refdeck.h`, `refrun.h`, `prop.h` independent models; `menu.h`, `decks.h` input language items;
  `fix.h`, `obs.h`, `sddsfile.h` fixtures and independent file readers; `cNN.cpp` one per property.
- The scheduler and MPI simulation are trusted. They were validated by planted races/deadlocks/mismatched collectives (see seeds) and
  by running the unmodified programs under them with results equal to those of the real libraries (same outputs as `mpirun -np N`).
- Hooks in /repo: none. Everything is done by compiling /repo's sources with other flags/libraries.

## Properties

'''
out=[HEAD]; evd={}
for p in P:
    c=checks.CHECKS[p['id']]; how,reach=D[p['id']]
    ev=V+'/evidence/%s.json'%p['id']
    out.append("### %s %s\n\n"%(p['id'],p['title']))
    out.append("*Property.* %s\n\n"%p['statement'])
    out.append("*How decided.* %s\n\n"%how)
    out.append("*Bounds.* %s.\n\n"%c['bounds'].rstrip('.'))
    if c.get('assumptions'): out.append("*Assumptions.* %s.\n\n"%"; ".join(c['assumptions']))
    out.append("*Beyond the tests.* %s\n\n"%reach)
out.append(open(T+'/design_tail.md').read())
kf=[l.strip() for l in open(V+'/known_findings.txt') if l.strip() and not l.startswith('#')]
out.append("\n## Genuine defects found\n\nRepaired (`fix:` commits in /repo; each check reports the defect again if the repair is undone):\n\n")
for l in kf:
    if l.startswith('fixed:'):
        m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l); out.append("- %s `%s` %s\n"%m.groups())
out.append("\nRecorded, not repaired (reported as KNOWN-FINDING):\n\n")
for l in kf:
    if l.startswith('finding:'): out.append("- "+l[9:]+"\n")
res={}
rf=T+'/seed_results.txt'
if os.path.exists(rf):
    for l in open(rf):
        w=l.split(None,1)
        if len(w)==2: res[w[0]]=w[1].strip()
out.append("\n## Planted bugs\n\nWritten from the property texts and the code (tools/seeds/*.py, generated into seeded/ by tools/mkseeds.py; tried by tools/seed.sh in scratch copies).\n\n| id | needs | result |\n|---|---|---|\n")
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d)); out.append("| %s | %s | %s |\n"%(i,m['needs'].replace('|','/'),res.get(i,'')))
open(V+'/DESIGN.md','w').write("".join(out))
