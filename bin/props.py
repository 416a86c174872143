"""The properties: single source of properties.jsonl and MANIFEST.json (bin/mkdocs.py)."""


def P(id, title, statement, over, text, why, files, mech, **kw):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=["Merlin++/" + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech]), **kw)


PROPS = [
P("C01", "A simulation is reproducible from its inputs and seed",
  "Two executions given the same machine, initial bunch, processes and random seed produce bit-identical particle coordinates, losses and recorded output. "
  "Nothing else may influence the result: not where memory is allocated or what it held before, not the wall clock, not what the same program simulated earlier once the generator is re-seeded.",
  ["inputs", "configurations", "histories"], "for every machine, bunch, set of physics processes, seed, heap placement and content, clock, and earlier work in the same program",
  "Tests run each program once, in one memory layout, in a fresh process, so a value read from stale memory or a cache keyed by address gives the same answer every time.",
  ["RandomNG.cpp", "ScatteringModel.cpp", "MaterialProperties.cpp", "ParticleBunch.cpp", "ParticleDistributionGenerator.cpp", "TrackingSimulation.cpp", "SynchRadParticleProcess.cpp"],
  [("seeded generator", "RandomNG::init/reset/getLocalGenerator"), ("material caches", "ScatteringModel::EnergyLossFull, Straggle, ParticleScatter"), ("bunch generation", "ParticleBunch distribution constructor")]),
P("C02", "Collimation neither loses, invents, duplicates nor alters particles",
  "At every point of a tracking run the particles still in the bunch together with those removed so far are exactly the particles put in, each once. "
  "A particle is removed only where an aperture is checked and only if it is outside it there, every particle outside is removed unless it survives scattering, and the others pass with their coordinates and charge unchanged and in their order; when the configured loss fraction is reached the run is interrupted and not before.",
  ["inputs", "configurations", "schedules", "histories"], "for every beam line, aperture set, collimation mode, scattering outcome, bin size, turn count and every way other processes cut the steps",
  "The tests collimate one drift with eight particles at its exit; interplay of check positions, other processes' steps, jaws, partial bins and several turns is not sampled.",
  ["CollimateParticleProcess.cpp", "CollimateProtonProcess.cpp", "ProcessStepManager.cpp", "ParticleBunch.cpp"],
  [("aperture check and removal", "CollimateParticleProcess::DoCollimation"), ("check positions", "CollimateParticleProcess::SetNextS/DoProcess"), ("scattering", "CollimateProtonProcess::DoScatter")]),
P("C03", "Loss records and loss maps agree with the particles lost",
  "Every particle removed by collimation is reported to each registered loss output exactly once, with its identity, the element and turn in which it was lost and a position inside that element, not beyond what the bunch has reached, at which (scattering jaws aside) its recorded coordinates are outside the aperture. "
  "No particle that survives is reported. Finalised loss maps count each loss once, in the right element, bin or position, and printed tables carry the same numbers under the right headings.",
  ["inputs", "configurations", "schedules", "histories"], "for every beam line, aperture set, collimation mode, scattering outcome, step pattern and turn count",
  "No existing test compares loss outputs with the set of particles removed.",
  ["CollimateParticleProcess.cpp", "CollimateProtonProcess.cpp", "LossMapCollimationOutput.cpp", "DetailedCollimationOutput.cpp", "CollimationOutput.h"],
  [("loss localisation", "CollimateParticleProcess::DoCollimation"), ("binning", "LossMapCollimationOutput::Finalise"), ("record output", "DetailedCollimationOutput::Output")]),
P("C04", "Physics processes are stepped through every component completely and in order",
  "In every component the processes are applied in order of priority (ties in the order added), each told of the component exactly once before its first step; the steps add up to the component length, never exceed what any active process allows, and there are finitely many of them. "
  "Removing a process reports whether it was registered and leaves the others running; a process that throws leaves the scheduler usable for the next component.",
  ["schedules", "inputs", "histories", "fault_sequences"], "for every set of processes, priorities, step limits, activity pattern, component length, exception point and sequence of additions and removals",
  "Tests combine at most two processes with commensurate steps; awkward lengths, ties, coinciding boundaries and failures part-way are not reached.",
  ["ProcessStepManager.cpp", "BunchProcess.h", "TrackingSimulation.cpp"],
  [("step choice", "ProcessStepManager::Track"), ("ordering", "ProcessStepManager::AddProcess"), ("removal", "ProcessStepManager::RemoveProcess")]),
P("C05", "Cutting an element into steps does not change what it does to the bunch",
  "Tracking a bunch through an element in any sequence of steps gives, to rounding, the same coordinates as tracking it in one step wherever the element's transport is exact, including entrance and exit effects, which act exactly once each. "
  "In elements integrated approximately, entrance and exit effects still act exactly once and the bunch traverses exactly the element's length.",
  ["schedules", "inputs"], "for every element type, strength, length, integrator set, bunch and every sequence of step lengths including zero-length ones",
  "Tests track whole elements; steps are cut by whichever processes happen to be present.",
  ["ComponentIntegrator.h", "ComponentTracker.cpp", "StdIntegrators.cpp", "TransportIntegrators.cpp", "SymplecticIntegrators.cpp", "LCAVintegrator.cpp", "TransRFIntegrator.cpp"],
  [("step bookkeeping", "ComponentIntegrator::Track"), ("edge effects", "SectorBendCI::TrackEntrance/TrackExit"), ("cavity end fields", "LCAVIntegrator")]),
P("C06", "Effects meant once per passage happen once, however steps are cut",
  "Diagnostics, kicks and effects that belong to one passage of an element act exactly once per passage, at their place, with a strength independent of how other processes cut the steps: monitor readings, monitor output, wake kicks, synchronised cavity phases, spin rotation and electron-lens kicks. "
  "A multi-turn run advances turn-dependent settings by exactly one per turn.",
  ["schedules", "inputs", "histories"], "for every step pattern imposed by other processes, element length and number of turns",
  "Tests run these processes alone, so each element is one step.",
  ["MonitorProcess.cpp", "HollowELensProcess.cpp", "TransportIntegrators.cpp", "StdIntegrators.cpp", "WakeFieldProcess.cpp", "CCFailureProcess.cpp", "RingDeltaTProcess.cpp", "SpinParticleProcess.cpp"],
  [("monitor", "MonitorCI::TrackStep"), ("electron lens", "HollowELensProcess::DoProcess"), ("wake application", "WakeFieldProcess::DoProcess")]),
P("C07", "Running, stepping and resuming a beam line are the same simulation",
  "Tracking a beam line in one call, component by component, or split over several consecutive stretches gives bit-identical bunches and the same sequence of outputs, also when elements or girders are misaligned and when the lattice is assumed flat. "
  "A run interrupted by an exception at any point leaves a simulation that gives, when run again from the start, the result of an undisturbed run.",
  ["schedules", "crash_points", "configurations"], "for every beam line and alignment, split point, interruption point and traversal interface",
  "Tests use the one-call interface on undisturbed machines.",
  ["TrackingSimulation.cpp", "TTrackSim.h", "ring_iterator.h", "AcceleratorModel.cpp", "ComponentFrame.cpp"],
  [("traversal", "PerformTracking, TrackingSimulation::StepComponent"), ("resumption", "TrackingSimulation::Continue/InitStepper")]),
P("C08", "Saving and reloading a bunch preserves it, so a run can be restarted from a file",
  "A bunch written to a file and read back has the same reference momentum and time, charge, particle count and order, and each particle's coordinates to the printed precision; writing the reloaded bunch gives the same file. "
  "A simulation restarted from such a file at any point continues as the uninterrupted one to that precision.",
  ["crash_points", "inputs", "histories"], "for every bunch content (sizes, magnitudes, charges) and every checkpoint position",
  "The round-trip test uses one small bunch with benign numbers.",
  ["ParticleBunch.cpp", "PSvector.cpp", "MonitorProcess.cpp"],
  [("output", "ParticleBunch::Output"), ("input", "ParticleBunch::Input"), ("coordinate format", "operator<< / operator>> for PSvector")]),
P("C09", "A damaged bunch file never yields particles that were not written",
  "Reading a bunch file that was cut short, garbled by characters that are not part of a number, or met a read error either yields only particles that were completely written, in order, or is reported as an error. "
  "It never yields repeated, partial or invented particles and never hangs or crashes.",
  ["crash_points", "fault_sequences", "inputs"], "for every bunch, truncation point, garbled character, short read and read error",
  "Tests read only intact files.",
  ["ParticleBunch.cpp", "PSvector.cpp"], [("input", "ParticleBunch::Input"), ("coordinate parsing", "operator>> for PSvector")]),
P("C10", "A data table survives being written and read; damage is reported",
  "A table written in TFS form and read back has the same columns, types, rows, header values and cell contents (numbers to the printed precision). "
  "A file that was cut short, corrupted or unreadable is refused with an error or yields only complete, unaltered rows in order; it never yields cells that were not written, and neither reading nor writing hides a device error.",
  ["inputs", "crash_points", "fault_sequences"], "for every table content, truncation point, garbled field and device failure",
  "The table tests use fixed small tables and intact files.",
  ["DataTable.cpp", "DataTableTFS.cpp"], [("reader", "DataTableReaderTFS"), ("writer", "DataTableWriterTFS")]),
P("C11", "A lattice file becomes exactly the machine it describes, or is refused",
  "Every row of a lattice description becomes one element of the stated type, length and strength at the stated place and in the stated order, so lengths and positions add up, whatever the column order, and building it again from the same file, or appending further files, gives the machine described; types set to be drifts or to be ignored are. "
  "A description that is missing, cut within a row, garbled, lacks a needed column, leaves a frame open, gives a strength to an element without length, a cavity a length that is not whole half wavelengths, or (in MAD tables) an unknown type a length is refused with an error, never turned silently into a shorter or different machine.",
  ["inputs", "crash_points", "fault_sequences", "histories"], "for every element sequence, column order, truncation point, garbled field and device failure",
  "Tests load two large correct lattices and compare optics summaries.",
  ["MADInterface.cpp", "XTFFInterface.cpp", "AcceleratorModelConstructor.cpp"], [("MAD TFS reader", "MADInterface::ConstructModel"), ("XTFF reader", "XTFFInterface::Parse")]),
P("C12", "Distributing a bunch over nodes and gathering it conserves every particle",
  "Distributing a bunch from the master over any number of nodes and gathering it again returns exactly the particles distributed, with all coordinates and identities, in a fixed order, and the same reference momentum on every node, however messages are delayed. "
  "No node keeps a copy after gathering, and repeating the cycle neither multiplies nor loses particles; every exchange finishes.",
  ["schedules", "configurations", "histories"], "for every node count, bunch size (including empty and smaller than the node count), delivery order and number of cycles",
  "No test runs more than one process.",
  ["ParticleBunch.cpp", "ParticleBunch.h"], [("scatter", "ParticleBunch::distribute"), ("gather", "ParticleBunch::gather"), ("wire format", "ParticleBunch::Create_MPI_particle")]),
P("C13", "A parallel run gives the result of the serial run",
  "Tracking with a collective process (wake field, monitor) on several nodes yields the same particles, with the same coordinates, as the same run on one node, for any distribution of the bunch and any message timing, and every node finishes.",
  ["schedules", "configurations"], "for every node count, bunch, and message delivery schedule",
  "No test runs more than one process.",
  ["WakeFieldProcess.cpp", "MonitorProcess.cpp", "ParticleBunch.cpp", "ParticleBunchProcess.h"], [("collective wake", "WakeFieldProcess (ENABLE_MPI)")]),
P("C14", "Multi-threaded tracking gives the single-threaded result",
  "With multi-threaded tracking enabled, the bunch after any beam line is bit-identical to the one tracked with one thread, however the threads are interleaved.",
  ["schedules", "configurations"], "for every thread count, chunking and interleaving of the tracking threads",
  "The threads of a test run happen to interleave one way.",
  ["TransportIntegrators.cpp", "StdIntegrators.cpp", "SymplecticIntegrators.cpp", "RTMap.cpp", "ParticleBunch.cpp"], [("parallel loops", "OpenMP loops over particles")]),
P("C15", "Changing a bunch's reference momentum or time does not change its particles",
  "Re-referencing a bunch to its mean, by an amount, or implicitly in accelerating elements leaves each particle's absolute momentum and arrival time unchanged to rounding, whatever sequence of such operations is applied, and reference values equal what the operations report. "
  "Moments and centroids computed from the bunch agree with its particles after any such history.",
  ["histories", "inputs"], "for every bunch and every sequence of rebasing, transformation and tracking operations",
  "Tests do not compose rebasing operations.",
  ["ParticleBunch.cpp", "Bunch.h", "LCAVintegrator.cpp", "SMPBunch.cpp"], [("rebase", "ParticleBunch::AdjustRefMomentum*/AdjustRefTimeToMean"), ("moments", "ParticleBunch::GetMoments")]),
P("C16", "Control channels read and write exactly the quantities they name",
  "A channel obtained by key reads the current value of exactly the element property it names and a write changes that property of that element and nothing else; group operations equal the individual ones; increments add up. "
  "Feedback built on channels applies to its actuators exactly the correction its signals and gain imply, pulse by pulse.",
  ["histories", "inputs", "configurations"], "for every machine, key pattern and sequence of reads, writes, increments and model changes",
  "No test exercises channels.",
  ["ChannelServer.cpp", "Channels.cpp", "StdChannelDefs.cpp", "RWChannelState.cpp", "BPMChannelCtor.cpp", "MagnetMover.cpp", "Klystron.cpp", "LinearFBSystem.cpp"],
  [("lookup", "ChannelServer::GetROChannels/GetRWChannels"), ("state", "RWChannelState"), ("feedback", "LinearFBSystem::Apply")]),
P("C17", "Each beam-position reading reaches every registered buffer exactly once",
  "Each passage of the bunch through a monitor delivers exactly one reading, of the bunch at that place plus the configured offsets and scale, to every buffer attached at that moment and to no other; detached buffers receive nothing and other monitors are unaffected. "
  "Attaching and detaching buffers, replacing monitors and destroying detached buffers in any order leaves the others working.",
  ["histories", "inputs"], "for every machine and sequence of attach, detach, destroy, track and offset operations",
  "No test exercises monitor buffers.",
  ["BPM.cpp", "Monitor.cpp", "BPMDataBuffer.cpp", "BPMDataBufferServer.cpp", "RMSProfileMonitor.cpp", "AMBufferManager.h"], [("delivery", "BPM::MakeMeasurement"), ("registration", "Measurement buffer managers")]),
P("C18", "Ground motion and support movement displace exactly what they support",
  "After any sequence of support motions, mover settings and ground-motion steps, every element's alignment is the one implied by its own supports and adjustments, independent of when or in which order it is asked for; resetting restores the undisturbed machine exactly. "
  "Ground motion with a given seed gives the same history again, also when its eigensystem is recorded and read back; a recording that is cut short is refused.",
  ["histories", "inputs", "configurations"], "for every girder structure and every sequence of motions, resets and queries",
  "One test moves the ground once and looks at an rms.",
  ["SupportStructure.cpp", "AcceleratorSupport.cpp", "MagnetMover.cpp", "ATL2D.cpp", "SimpleATL.cpp"], [("lazy update", "SupportStructure::UpdateSupportTransform"), ("ground motion", "SimpleATL/ATL2D::DoStep")]),
P("C19", "Misalignments compose and undo",
  "Any sequence of translations and rotations of an element or a group acts on the beam as the composition of the individual movements about the stated axes, and undoing them, or clearing the alignment, returns the element to where it was and the beam to its undisturbed path. "
  "Moving one element never moves another unless it is mounted on it.",
  ["histories", "inputs"], "for every frame structure and sequence of movements, inverse movements and resets",
  "Tests do not move elements.",
  ["LatticeFrame.cpp", "Transformable.cpp", "ComponentFrame.cpp", "SequenceFrame.cpp", "Transform3D.cpp"], [("local transform", "Transformable::Translate*/Rotate*"), ("frame composition", "LatticeFrame")]),
P("C20", "Random streams depend only on the seed and their name, and not on each other",
  "After seeding, every random quantity is determined by the seed and the sequence of requests; a named local stream depends only on the seed and its name, not on how much other streams were used or in which order they were created. "
  "Re-seeding or resetting starts every stream again, and use before seeding is seeded automatically with a warning, never undefined.",
  ["histories", "schedules"], "for every seed, set of names and interleaving of requests",
  "The random test checks distributions of one stream.",
  ["RandomNG.cpp", "RandomNG.h"], [("global generator", "RandomNG::init/reset"), ("local generators", "RandomNG::getLocalGenerator")]),
P("C21", "Running out of memory is reported and never corrupts a simulation",
  "If any single allocation fails while a machine is built, a bunch is loaded or tracking proceeds, the operation either completes with the normal result or reports the failure as an exception, without crashing, hanging or corrupting memory. "
  "A fresh simulation in the same process afterwards gives the normal result.",
  ["fault_sequences", "crash_points"], "for every allocation point of building, loading, tracking and output",
  "Tests never fail an allocation.",
  ["TrackingSimulation.cpp", "ProcessStepManager.cpp", "AcceleratorModelConstructor.cpp", "CollimateParticleProcess.cpp", "ParticleBunch.cpp"], [("exception paths", "construction, tracking and loading code")]),
P("C22", "Output never disturbs the simulation, and what reaches the file is a true prefix",
  "Switching outputs on or off, or their device filling up or failing at any byte, changes nothing in the tracked bunch. "
  "What is stored is then exactly the beginning of what would have been stored on a working device, with nothing altered, repeated or reordered.",
  ["fault_sequences", "crash_points", "configurations"], "for every output, failure byte, short write and interrupted call",
  "Tests write to a working disk.",
  ["MonitorProcess.cpp", "ParticleBunch.cpp", "LossMapCollimationOutput.cpp", "DetailedCollimationOutput.cpp", "ParticleBunchUtilities.cpp", "DataTableTFS.cpp"], [("bunch output", "ParticleBunch::Output"), ("dump process", "MonitorProcess")]),
P("C23", "Profiling reports the time spent, whatever the clock does",
  "With profiling enabled, the time reported for a process is the sum of the durations of its calls as measured by the clock, each process separately, however calls of different processes interleave and however the clock steps between calls; clearing sets every total to zero. "
  "Profiling never changes tracking results.",
  ["schedules", "fault_sequences", "histories"], "for every sequence of process calls, clock behaviour and profiling calls",
  "No test builds with profiling.",
  ["MerlinProfile.cpp", "ProcessStepManager.cpp"], [("timers", "MerlinProfile::StartProcessTimer/EndProcessTimer")]),
P("C24", "A built machine has each element once, in order, at its place",
  "However a machine is assembled (nested frames, girders, appended models), its beam line lists each element exactly once in the order appended, positions and lengths add up, searches by name or type return exactly the matching elements in order, and sub-lines and rings started anywhere contain exactly the stated stretch, and a stretch to or from an element that does not exist is refused. "
  "Building two machines interleaved gives the same two machines.",
  ["inputs", "histories", "configurations"], "for every sequence of construction calls, frame nesting, repeated names and query patterns",
  "Tests build flat machines and query them little.",
  ["AcceleratorModelConstructor.cpp", "AcceleratorModel.cpp", "ElementRepository.cpp", "SequenceFrame.cpp", "StringPattern.cpp", "ring_iterator.h"], [("construction", "AcceleratorModelConstructor"), ("queries", "AcceleratorModel::ExtractTypedElements/GetBeamline")]),
P("C28", "Optics computations agree with tracking, can be repeated and disturb nothing",
  "Closed orbits, transfer matrices, lattice functions, dispersion, tunes, damping constants and aperture surveys depend only on the machine and the settings: not on what was computed or tracked before, with the same object or another, on whether an earlier computation was stopped by an exception, nor on what memory held before. "
  "Computing them does not change the machine: a bunch tracked afterwards is tracked as before. A computation that cannot be completed, for instance because the particles it tracks are lost, ends with an error, not with numbers taken from somewhere else. "
  "What they say agrees with tracking: a closed orbit closes, the matrix maps small displacements as tracking does, lattice functions are periodic and belong to the matrix, dispersion maps onto itself, tunes from tracking and from the matrix agree, a phase advance between two places counts the whole turns between them, particles are called stable that survive the turns when tracked alone, and a survey shows the apertures that are there.",
  ["histories", "fault_sequences", "configurations"], "for every machine, sequence of computations and settings, and point at which an earlier one was stopped",
  "Tests compute each quantity once, with a new object.",
  ["ClosedOrbit.cpp", "TransferMatrix.cpp", "LatticeFunctions.cpp", "Dispersion.cpp", "BetatronTunes.cpp", "EquilibriumDistribution.cpp", "PhaseAdvance.cpp", "StableOrbits.cpp", "ApertureSurvey.cpp"], [("closed orbit", "ClosedOrbit::FindClosedOrbit"), ("lattice functions", "LatticeFunctionTable::Calculate")]),
P("C29", "Slices go through the machine as the particles they stand for",
  "A bunch of sliced macroparticles tracked through a machine goes where particles go: to first order every slice's centroid follows the particle that starts at the same place, with the same reference momentum and time, and its second moments are those of its displaced centroids. "
  "No slice or charge is lost or changed. How elements are cut into steps, whether the machine is stepped component by component, and whether an earlier passage was stopped by an exception makes no difference. "
  "A wake acts on a slice once in each element that has one, at its centre or exit as chosen, as the sum over the slices ahead of it and half of its own bin, with the slices where they are then, in whatever order they were added; the reference momentum follows the mean energy loss, and slopes and moments scale with the momentum.",
  ["configurations", "schedules", "histories"], "for every machine of linear elements, bunch of slices, way of cutting steps and sequence of passages",
  "No test tracks slices.",
  ["SMPStdIntegrators.cpp", "SMPWakeFieldProcess.cpp", "SMPTransform3D.cpp", "TransportRMaps.cpp", "SMPBunch.cpp"], [("slice integrators", "SMPTracking::RectMultipoleCI::TrackStep"), ("slice wakes", "SMPTracking::WakeFieldProcess::ApplyWakefield")]),
P("C26", "Aperture and collimator settings reach the right elements or are refused",
  "Each aperture or collimator setting read from a file is applied to exactly the elements it is for, with the stated shape and size, and no other element changes. Aperture tables apply by position, with the entries repeating each turn: a drift takes the piecewise linear profile through the entries, any other element of some length the first entry at or after its entrance, and an element that has an aperture keeps it. Collimator settings apply to every collimator of the name, as gaps with offsets or as a number of beam sigmas around the orbit. "
  "A file that is missing, cut short or names unknown shapes or materials is refused with an error, not applied in part without notice.",
  ["inputs", "crash_points", "fault_sequences"], "for every machine, settings file, truncation point and garbled field",
  "One test reads one intact aperture file.",
  ["ApertureConfiguration.cpp", "CollimatorDatabase.cpp", "InterpolatedApertures.cpp", "Aperture.cpp"], [("aperture assignment", "ApertureConfiguration::ConfigureElementApertures"), ("collimator settings", "CollimatorDatabase::ConfigureCollimators")]),
P("C27", "A tracker and its physics processes can be used again",
  "What a tracker and the physics processes in it do to a bunch depends on the bunch, the machine and the settings, not on what they tracked before: after any history of other bunches (empty, single particles, other momenta and charges, losses, a stop by an exception, a run abandoned half way), on the same or another machine, moved to another tracker or not, a bunch is tracked exactly as by newly made ones. "
  "This holds for wake fields, synchrotron radiation, spin, timing, electron lenses and collimation with and without scattering, for the coordinates, the reference, the spins and the loss records. A process that removes particles whose coordinates are not numbers removes all of them and only them, from every bunch, whatever their ids.",
  ["histories", "fault_sequences", "configurations"], "for every set of processes, machine and history of earlier uses",
  "Tests make a new tracker and new processes for every bunch.",
  ["WakeFieldProcess.cpp", "CouplerWakeFieldProcess.cpp", "CollimatorWakeProcess.cpp", "CollimateParticleProcess.cpp", "CollimateProtonProcess.cpp", "ScatteringModel.cpp", "SynchRadParticleProcess.cpp", "SpinParticleProcess.cpp", "RingDeltaTProcess.cpp", "HollowELensProcess.cpp", "NANCheckProcess.cpp", "TTrackSim.h"],
  [("renewal", "BunchProcess::InitialiseProcess and SetCurrentComponent of every process"), ("tracker", "TTrackSim::Track, TrackingSimulation::InitStepper")]),
# ---- not decided by this technique
P("C90", "Transport maps are symplectic and conserve the invariants of the element",
  "The transport of every magnet and cavity conserves phase-space volume and the invariants of its field.",
  ["inputs"], "for every element, strength and coordinate", "Tests sample a few coordinates.",
  ["SymplecticIntegrators.cpp", "TransportIntegrators.cpp", "BasicTransportMaps.cpp"], [("maps", "integrators")],
  na="A pure function of one particle's coordinates and one element: no schedule, time, I/O, memory or history enters, so there is nothing for a simulator to control; needs analysis or algebra, not simulation."),
P("C91", "Scattering and emission follow their physical distributions",
  "Sampled scattering angles, energy losses, photon spectra and generated bunch distributions follow the stated distributions and moments.",
  ["inputs"], "for every material, energy and bunch parameter", "Statistical tests compare a few distributions with stored references.",
  ["ScatteringProcess.cpp", "DiffractiveScatter.cpp", "ElasticScatter.cpp", "PhotonSpectrumGen.cpp", "ParticleDistributionGenerator.cpp"], [("sampling", "scattering processes")],
  na="A statement about distributions of a pure sampling function; schedules and faults do not enter, and deciding it needs statistics against physics references rather than simulated executions."),
P("C92", "Aperture shapes contain exactly the points their geometry says",
  "A point is inside an aperture if and only if it lies inside the stated shape with its offsets, tilt and interpolation.",
  ["inputs"], "for every shape, parameter set and point", "The aperture test samples points per shape.",
  ["Aperture.cpp", "CollimatorAperture.cpp", "InterpolatedApertures.cpp"], [("containment", "CheckWithinApertureBoundaries")],
  na="A pure geometric predicate of its arguments; nothing a deterministic simulator controls (schedule, clock, I/O, faults) can influence it."),
P("C93", "Computed optics agree with the tracked machine",
  "Closed orbit, Twiss parameters, dispersion, tunes and equilibrium emittance computed by the library are those of the machine as tracked.",
  ["inputs", "configurations"], "for every machine", "Optics tests compare two lattices with reference tables.",
  ["LatticeFunctions.cpp", "ClosedOrbit.cpp", "TransferMatrix.cpp", "EquilibriumDistribution.cpp", "BetatronTunes.cpp"], [("optics", "LatticeFunctionTable")],
  na="A numerical-accuracy statement about pure functions of the machine; no nondeterminism, fault or history for a simulator to vary beyond what C01 and C05 already decide."),
]
