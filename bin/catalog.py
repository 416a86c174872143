"""What each check runs (see props.py for the statements)."""
VARIANT_NOTES = {}
REAL_ALL = ["whole Merlin++ library compiled from /repo's working tree (clang, AddressSanitizer)"]
STUB_STD = ["operator new/delete: simulated heap (placement, reuse, stale contents, failures)", "clock and entropy system calls", "disk read/write calls under the run's scratch directory"]


def part(scenario, runs, variant="std", **kw):
    return dict(scenario=scenario, runs=runs, variant=variant, **kw)


CHECKS = {
    "C01": dict(technique="a drawn simulation is executed twice in one process with other work in between and a different heap (placement, reuse, stale contents), clock and entropy; everything it produced is compared bit for bit",
                note="bounded: seeded search over machines of up to 8 elements and 12 particles, 2 turns, drawn process sets; tabulated diffractive scattering repeated on its own",
                rule="A drawn machine with random errors, ground motion, generated bunch, scattering, radiation, wakes, spin, monitors and loss outputs is simulated, other simulations and random draws follow, and it is simulated again from its seed. Non-trivial: another simulation ran in between.",
                parts=[part("reproducible", 8000), part("tabulated", 8)], real=REAL_ALL, stub=STUB_STD, unit="metres of beam line traversed", quick_secs=60),
    "C02": dict(technique="observer processes frame the collimation in every scheduler step and check conservation by particle identity; step-chopping, scripted scattering, loss-threshold exceptions",
                note="bounded: seeded search over beam lines of up to 9 elements and 40 particles, 3 turns; scattering physics either scripted or the real SixTrack-like model",
                rule="A drawn beam line with apertures, collimation mode, jaws, bin size, scattering outcomes and chopped steps is tracked for 1-3 turns. Non-trivial: at least one particle was lost or scattered.",
                parts=[part("collimate_conserve", 16000)], real=REAL_ALL, stub=STUB_STD + ["in a third of the runs the scattering outcome is scripted"]),
    "C03": dict(technique="a recording loss output, all loss maps and the detailed output are compared with the particles that actually disappeared, step by step and at the end",
                note="bounded: as C02; coordinates within 1e-10 m of an aperture edge are not judged",
                rule="As C02 with all loss outputs attached, finalised once or twice, and their printed tables parsed. Non-trivial: at least one particle was lost or scattered.",
                parts=[part("collimate_record", 16000)], real=REAL_ALL, stub=STUB_STD + ["in a third of the runs the scattering outcome is scripted"]),
    "C04": dict(technique="scripted processes under the real scheduler, every scheduler call recorded and checked against the ordering and stepping contract; injected exceptions, additions and removals between components",
                note="bounded: seeded search, up to 7 processes and 6 components per run",
                rule="Scripted processes with drawn priorities, step limits, activity and exceptions share drawn components; the process table changes between components. Non-trivial: some component was cut into several steps or shared by several processes.",
                parts=[part("steps", 16000)], real=REAL_ALL, stub=STUB_STD + ["physics processes replaced by scripted processes"]),
    "C05": dict(technique="the same element and bunch tracked whole and cut into steps by a chopping process under the real scheduler, over several passages and after an interrupted attempt",
                note="bounded: seeded search over 14 element kinds, 3 integrator sets, up to 12 cuts and 3 passages; transport that is exact only to first order is compared at an amplitude where the first order is all there is",
                rule="One drawn element is tracked 1-3 times whole and 1-3 times with drawn cuts (zero-length steps, one-ulp cuts, uniform, random). Non-trivial: the element was cut at least once.",
                parts=[part("subdivide", 24000)], real=REAL_ALL, stub=STUB_STD + ["a chopping process stands for the physics processes that cut steps"]),
    "C06": dict(technique="each per-passage process runs alone and beside a chopping process that cuts the steps; effects are counted per passage and turn, and the bunches compared",
                note="bounded: seeded search over monitor dumps, BPM readings, electron lens, three wake processes, synchrotron radiation, spin and ring timing; up to 4 elements, 4 turns, 24 particles",
                rule="A drawn beam line with the process under test is tracked 1-4 turns alone and with drawn cuts. Non-trivial: steps were actually cut.",
                parts=[part("passages", 16000)], real=REAL_ALL, stub=STUB_STD + ["wake potentials are test functions", "a chopping process stands for the physics processes that cut steps"]),
    "C07": dict(technique="one machine and bunch driven in seven ways (one call, component by component, consecutive stretches, rings started anywhere, after interruptions at drawn steps, again, on a rebuilt machine); bunches and output sequences compared bit for bit",
                note="bounded: seeded search over machines of up to 8 elements with nested frames, girders, patches and misalignments, up to 8 particles, 3 turns; radiation and collimation as physics",
                rule="A drawn machine is tracked in one call and in one other way, with processes that cut steps and fail at drawn points. Non-trivial: more than one frame, or an interruption took place.",
                parts=[part("resume", 16000)], real=REAL_ALL, stub=STUB_STD + ["a process that fails at a drawn step", "a chopping process stands for the physics processes that cut steps"]),
    "C08": dict(technique="bunches written to and reloaded from the simulated disk (short and interrupted calls), and simulations saved at a drawn element, thrown away, reloaded and continued, compared bit for bit with the uninterrupted run",
                note="bounded: seeded search over bunches of up to 400 particles with subnormal, huge and negative-zero values, four bunch types, slice bunches, and beam lines of up to 8 elements; particle identities are not part of the bunch file",
                rule="A drawn bunch is written and reloaded, or a drawn beam line is tracked to a checkpoint, saved, reloaded and continued. Every run is non-trivial.",
                parts=[part("bunch_file", 16000)], real=REAL_ALL, stub=STUB_STD),
    "C09": dict(technique="bunch files truncated or garbled at drawn bytes, or read from a device that fails or ends at a drawn byte; what is read must be particles that were written, in order, or an exception",
                note="bounded: seeded search over three file forms and up to 12 particles; garbling puts a character that cannot be part of a number, since the format has no redundancy to detect one digit replaced by another",
                rule="A drawn bunch file is damaged at a drawn byte, biased to line ends and the end of the file. Every run is non-trivial.",
                parts=[part("bunch_damage", 16000)], real=REAL_ALL, stub=STUB_STD),
    "C10": dict(technique="tables written and read on the simulated disk with drawn stream formats, short and interrupted calls, full and failing devices; files truncated, garbled or unreadable at drawn bytes; compared with the table kept in memory",
                note="bounded: seeded search over tables of up to 6 columns, 4 header values and 120 rows; names without spaces, strings without quotes or line ends (not representable in the format); garbling only within numeric rows by characters that are no part of a number",
                rule="A drawn table is written and read back twice, or damaged or put on a failing device at a drawn byte. Every run is non-trivial.",
                parts=[part("table_file", 12000), part("table_damage", 16000)], real=REAL_ALL, stub=STUB_STD),
    "C15": dict(technique="drawn sequences of re-referencing, sorting, transforming, accelerating and losing energy; every particle's absolute momentum and arrival time is kept beside the bunch in extended precision and compared after each operation",
                note="bounded: seeded search over bunches of up to 24 particles (four types) or 12 slices and up to 10 operations; absolute momentum is the length, the transverse slopes are only required to stay as they are",
                rule="A drawn bunch goes through 1-10 drawn operations; its reference, particles, moments and centroids are checked after each. Non-trivial: at least one operation changed the reference of a non-empty bunch.",
                parts=[part("rebase", 24000), part("rebase_slices", 16000)], real=REAL_ALL, stub=STUB_STD + ["wake potentials are test functions"], unit="operations"),
    "C16": dict(technique="channels found by drawn patterns in drawn machines (each built twice on a drawn heap), kept and used through drawn reads, writes, increments and group operations, every property of every element compared after each; klystrons; feedback loops run pulse by pulse against an independent solution of the same equations",
                note="bounded: seeded search over machines of up to 40 elements of 16 types, 20 operations; klystrons of up to 5 cavities; feedback with up to 5 signals and 5 actuators, singular and badly scaled responses, delays up to 4; quantities kept relative to a main field (bend gradient, corrector windings) may scale with it, singular values near the cut-off are not judged",
                rule="Drawn operations on channels, a klystron or a feedback loop. Non-trivial: channels were found and written, or more than one setting or pulse took place.",
                parts=[part("channels", 12000), part("klystron", 6000), part("feedback", 12000)], real=REAL_ALL, stub=STUB_STD, unit="operations"),
    "C17": dict(technique="drawn histories of attaching, detaching, clearing, destroying and replacing buffers and monitors, switching, scaling, offsets and tracking in drawn steps, on a heap that reuses addresses; every buffer and channel is compared with a list of what it must hold",
                note="bounded: seeded search over beam lines of up to 4 monitors, 3 buffers of each kind, a default buffer, channels, up to 24 operations; buffers are detached before they are destroyed, monitors measure without noise",
                rule="Up to 24 drawn operations on monitors and buffers with drawn passages of particles or slices. Non-trivial: more than one reading was due.",
                parts=[part("readings", 24000)], real=REAL_ALL, stub=STUB_STD + ["a chopping process stands for the physics processes that cut steps"], unit="operations"),
    "C18": dict(technique="drawn histories of support offsets, mover settings, movements, ground-motion steps, questions and tracking; every frame's place is computed beside it from the present settings, and a fresh machine given only those must agree; ground motion repeated after other random use, on other machines, from recorded and truncated files",
                note="bounded: seeded search over machines of up to 7 elements with nested mounts, girders and movers, 14 operations (30 thorough), 8 ground-motion steps; a girder's tilt is judged to first order in its supports' offsets over its length",
                rule="Drawn operations on supports, movers and frames, or drawn ground-motion steps repeated in drawn ways. Non-trivial: a support or mover moved, or ground motion took place.",
                parts=[part("supports", 10000), part("ground", 10000)], real=REAL_ALL, stub=STUB_STD, unit="operations and simulated seconds"),
    "C19": dict(technique="drawn histories of movements, settings, clearings, undoings, named errors, questions and tracking; every frame's place and the beam's path are computed beside it in extended precision from the movements alone",
                note="bounded: seeded search over machines of up to 7 elements with up to 3 levels of nested sequences, mounts and girders, 12 operations (25 thorough), movements from a picometre to 0.1 m and turns up to half a revolution; the element maps themselves are taken from the same code on an unmoved element",
                rule="A drawn machine goes through 1-12 drawn operations; every frame is compared after each, the beam at drawn points, at the end and after clearing. Every run is non-trivial.",
                parts=[part("alignment", 16000)], real=REAL_ALL, stub=STUB_STD, unit="operations and frames compared"),
    "C20": dict(technique="drawn histories of seeding (given, automatic from simulated entropy), resetting and requests on the main and named streams, with kept references and failing allocations; every stretch of every stream is asked for again alone, in another order and beside other use",
                note="bounded: seeded search over 8 names and the main stream, 50 operations (120 thorough), 15 kinds of request; names whose 32-bit hashes collide share a stream and are not judged",
                rule="Drawn seedings, resets and requests, then every stretch repeated. Non-trivial: something was asked for.",
                parts=[part("streams", 16000)], real=REAL_ALL, stub=STUB_STD, unit="requests"),
    "C28": dict(technique="a drawn history of optics computations with kept and new objects, stopped by exceptions and failing allocations in between, every result compared bit for bit with that of new objects on a newly built machine, on a heap with drawn contents, and with what tracked particles do",
                note="bounded: seeded search over rings of up to 6 cells (10 thorough) with nested frames and misalignments, 2-6 computations (12 thorough); agreement is judged on machines without coupling and away from resonances; damping constants and emittances only by repetition",
                rule="Drawn machine, drawn sequence of closed orbits, matrices, lattice functions, dispersions, tunes, damping constants and surveys; phase advances over drawn rings; drawn particles over drawn turns. Every run of the first is non-trivial, of the others those with a stable ring and with some particles lost.",
                parts=[part("optics", 8000), part("optics_phase", 4000), part("optics_stable", 4000)], real=REAL_ALL, stub=STUB_STD + ["a process that stops the tracking at a drawn step"], unit="metres"),
    "C29": dict(technique="drawn machines tracked with sliced macroparticles, whole and in drawn steps, with passages stopped by an exception, and with particles beside them; second moments compared with displaced centroids; wake kicks with an independent sum over the slices, observed before and after every step",
                note="bounded: seeded search over machines of up to 8 linear elements (16 thorough) with frames and misalignments, 6 slices; agreement with particles to first order (1e-3, 1e-2 with cavities); wakes over up to 6 elements, 8 slices, 3 passages; standing-wave cavities are not supported for slices",
                rule="Drawn machine, bunch of slices, steps and wakes. Every run is non-trivial.",
                parts=[part("slices_machine", 12000), part("slices_wake", 12000)], real=REAL_ALL, stub=STUB_STD + ["a chopping process stands for the physics processes that cut steps and stops passages", "wake potentials are test functions"], unit="steps"),
    "C24": dict(technique="one or two machines assembled from drawn construction calls, interleaved, on a heap with drawn placement; every query compared with a list of the elements kept beside them",
                note="bounded: seeded search over machines of up to about 25 places with nested frames, supports, patches, pre-built groups and their copies, shared components, repeated names; 4-32 drawn queries each",
                rule="Drawn construction calls build one or two machines, drawn queries are asked, sometimes after installing an element in a drift. Non-trivial: more than one place in the beam line.",
                parts=[part("model", 24000)], real=REAL_ALL, stub=STUB_STD),
    "C26": dict(technique="drawn aperture tables and collimator settings in simulated files (short reads, interruptions, cuts, garbled bytes, read errors, missing files) applied to drawn machines; every element's aperture probed at drawn points against the piecewise-linear profile, the stated jaws or the optics kept beside it",
                note="bounded: seeded search over machines of up to about 30 elements, tables of up to about 40 rows, 12 probes per element (24 thorough); how a rectangle turns into a round shape within a drift, repeated names in one settings file, jaw tilts and alignment errors are not judged",
                rule="Drawn machine and drawn file, applied or refused, every element probed. Non-trivial: the file sets something or was damaged.",
                parts=[part("apertures", 6000), part("aperture_damage", 4000), part("collimator_gaps", 6000), part("collimator_sigmas", 3000)], real=REAL_ALL, stub=STUB_STD, unit="elements"),
    "C11": dict(technique="drawn MAD tables and XTFF tapes in simulated files (short reads, interruptions, cuts at every byte, garbled numbers, read errors, missing files and columns, unbalanced frames), built, appended and built again; every element, frame and position of the machine compared with the description",
                note="bounded: seeded search over descriptions of up to about 16 rows (40 thorough), up to 5 files appended by two interfaces taking turns; MAD solenoid strengths are taken as integrated, as the reader does; aperture columns of MAD tables and unknown XTFF types (documented to become drifts) beyond that are not judged",
                rule="Drawn description, intact or damaged, turned into a machine or refused, the machine compared in full. Non-trivial: more than two rows, several files, or damage.",
                parts=[part("mad_lattice", 6000), part("mad_append", 3000), part("mad_damage", 5000), part("xtff_lattice", 5000), part("xtff_append", 3000), part("xtff_damage", 5000)], real=REAL_ALL, stub=STUB_STD, unit="metres"),
    "C22": dict(technique="drawn machines, bunches and combinations of outputs on a simulated device that fills up, fails at a drawn byte, recovers, transfers short counts, is interrupted or does not open files; the bunch compared bit for bit with a run without outputs, every file byte for byte with a working device's",
                note="bounded: seeded search over machines of up to 10 elements (20 thorough), up to 4 passages, 11 kinds of output, three failing devices per run (8 thorough); a device that recovers is only shown files opened and closed in between",
                rule="One drawn simulation run without outputs, with outputs, and with outputs on failing devices. Non-trivial: some output was on.",
                parts=[part("outputs", 4000)], real=REAL_ALL, stub=STUB_STD, unit="metres"),
    "C27": dict(technique="a tracker with drawn physics processes lives through a drawn history (bunches that are empty, flat, lost, of other momentum or charge; stops by an exception; abandoned runs; another machine; another tracker; machines and trackers gone), then tracks one more bunch; a newly made set tracks only that one from the same seed; compared bit for bit",
                note="bounded: seeded search over up to 8 kinds of processes in one run, machines of up to 7 elements, 1-4 earlier uses, bunches of up to 20 particles; the turn number in loss records counts on over a process' life and is not judged; the electron lens' own turn counter belongs to the element and is set back",
                rule="Drawn history, then the same bunch on used and new processes. Every run is non-trivial.",
                parts=[part("reuse", 16000), part("reuse_material", 2000), part("reuse_nan", 6000)], real=REAL_ALL, stub=STUB_STD + ["wake potentials are test functions", "a process that fails at a drawn step"]),
    "C23": dict(technique="the library compiled with profiling on a simulated clock that stands, runs, jumps and steps back: drawn interleavings of adding, starting, ending, clearing and removing, and tracking with processes that take drawn times; every report compared with the sums kept beside it",
                note="bounded: seeded search over 6 names, up to 40 calls (80 thorough), and beam lines of up to 5 elements with up to 3 timed processes; ending a timer that was not started is not judged",
                rule="Drawn profiling calls, or a drawn machine tracked by processes that take drawn times. Non-trivial: a timed call ended.",
                parts=[part("profile_calls", 16000, variant="prof"), part("profile_tracking", 8000, variant="prof")], real=REAL_ALL, stub=STUB_STD + ["processes that only take time stand for the physics processes"], unit="calls and metres"),
    "C12": dict(technique="the library compiled for MPI on a simulated network: every node is a fiber, the simulator draws which node runs, which message arrives next, whether a send waits for its receiver, slow nodes and links; drawn cycles of collecting, changing and spreading the bunch, every particle of every node followed by identity in the recorded history",
                note="bounded: seeded search over 1-6 nodes, up to 30 particles per node, 4 cycles; the nodes are fibers of one process, so global variables of the library are shared between them; messages are not lost or duplicated (MPI guarantees that); spins are not distributed by the code and not judged",
                rule="Nodes with drawn shares go through drawn cycles of gather, changes on the root, distribute and changes on every node. Non-trivial: more than one node exchanged messages.",
                parts=[part("distribute", 24000, variant="mpi")], real=REAL_ALL, stub=STUB_STD + ["MPI: message passing between fibers of one process"], unit="scheduling steps"),
    "C13": dict(technique="the library compiled for MPI on a simulated network of fibers: every node builds the machine, its processes and its tracker and tracks its share under drawn schedules, slow nodes and links; compared particle by particle, loss by loss and file by file with one node",
                note="bounded: seeded search over 2-6 nodes, bunches of up to 24 particles (also fewer than nodes, or none), machines of up to 6 elements (10 thorough), 3 turns; three wake processes, monitors, collimation without scattering, cut steps; processes that draw random numbers, local centroid readings and loss thresholds are per node in the code and are not judged; nodes share the library's global variables",
                rule="A drawn simulation on one node and on 2-6 nodes. Non-trivial: messages were exchanged.",
                parts=[part("parallel_run", 8000, variant="mpi")], real=REAL_ALL, stub=STUB_STD + ["MPI: message passing between fibers of one process", "wake potentials are test functions", "a chopping process stands for the physics processes that cut steps"], unit="metres"),
    "C14": dict(technique="the library compiled for OpenMP against a simulated OpenMP runtime: one thread at a time holds a baton, every memory access of the library is a place where the simulator may draw another thread, conflicting accesses that nothing orders are reported, and the tracked bunch is compared bit by bit with that of the integrators compiled without OpenMP",
                note="bounded: seeded search over 1-8 threads, bunches of up to 24 particles (60 thorough), machines of up to 6 elements (12 thorough), 3 turns, up to 60 switches per parallel region; memory is sequentially consistent in the simulation (weaker orders are covered by reporting every unordered conflict)",
                rule="A drawn machine and bunch tracked by the single-threaded integrators and by drawn interleavings of several threads. Non-trivial: a parallel region was entered with more than one particle.",
                parts=[part("threads", 8000, variant="omp")], real=REAL_ALL, stub=STUB_STD + ["OpenMP runtime: threads passing a baton", "wake potentials are test functions"], unit="metres"),
    "C21": dict(technique="allocation failure injected at a drawn point of a drawn simulation (building, queries, bunch files, tracking with processes, loss records) under AddressSanitizer with a controlled heap; results compared with those of the same simulation without failure, the objects in use afterwards walked and destroyed, and the next simulation compared bit by bit",
                note="bounded: seeded search, one failing allocation at a time, machines of up to 5 elements (8 thorough), bunches of up to 12 particles, 2 turns; memory that is not given back after a failure is not judged",
                rule="A drawn simulation, then the same with one allocation failing, then the same again. Non-trivial: an allocation failed.",
                parts=[part("memory", 14000), part("parts_memory", 4000), part("lattice_memory", 3000), part("table_memory", 3000), part("settings_memory", 3000)], real=REAL_ALL, stub=STUB_STD + ["wake potentials are test functions"], unit="metres"),
}
