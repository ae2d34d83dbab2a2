"""Registry of the checks: scenarios, run counts per tier, evidence texts."""
SIM = "seeded scheduler of choices, fault injector, allocator, std::random_device (all simulated)"

CHECKS = {}


def check(pid, scenarios, rule, real, stub, level="exploration", note="", technique=None, **kw):
    CHECKS[pid] = dict(scenarios=scenarios, rule=rule, real=real, stub=stub, level=level, note=note,
                       technique=technique or "deterministic simulation with fault injection, reference-model oracle", **kw)


check("C01",
      [("c01.growth", 1200, 40000), ("c01.growth_oom", 1200, 40000), ("c01.agree", 80, 4000)],
      rule="A run draws a map kind, cell model, initial size, scale and a history of 3-43 updates/resets (border-adjacent, "
           "repeated and far coordinates), in c01.growth_oom with one allocation failing inside some of the writes. Non-trivial: "
           "at least three cells written and (unbounded maps) at least one growth; distinct by complete event log.",
      real=["PlainGridMap", "UnboundedPlainGridMap", "LazyTiledGridMap", "UnboundedLazyTiledGridMap", "M3RSMRescalableGridMap",
            "RescalableCachingGridMap", "all seven cell models"],
      stub=["operator new (simulated allocator, may fail)"],
      state_measure="(map kind, width, height, origin) tuples reached",
      note="Samples write histories and single allocation failures per write; trusts the cell classes' own operator+= as the "
           "model of one cell (decided separately by C12). Not exhaustive.",
      technique="seeded simulation of write/growth histories with failing allocations against a dictionary reference model")

check("C02",
      [("c02.copies", 1200, 60000), ("c02.copies_oom", 1200, 60000), ("c02.particles", 1200, 60000), ("c02.filter", 3000, 60000)],
      rule="c02.copies: a run draws a tiled map kind, cell model and a history of 5-64 writes, resets, copies, assignments, moves and "
           "destructions over up to 7 copies (c02.copies_oom: with failing allocations); non-trivial: at least one copy and four "
           "writes. c02.particles: 2-8 particles of the real gmapping filter with scripted matching results over 2-11 scans; "
           "non-trivial: at least three scans and one duplicated particle. Distinct by complete event log.",
      real=["LazyTiledGridMap", "UnboundedLazyTiledGridMap", "ParticleFilter", "UniformResampling", "GmappingParticleFilter",
            "GmappingWorld", "WallDistanceBlurringScanAdder", "all seven cell models"],
      stub=["operator new (simulated allocator, may fail)", "std::random_device (seeded)", "scan matcher (scripted poses and scores, c02.particles)"],
      state_measure="(number of copies, cells written per copy) / (particles, integrated scans, resamplings) tuples",
      note="Samples copy/write interleavings; trusts operator+= of one cell as the model of a cell and the scan adder applied to a "
           "fresh map as the model of one particle's map (decided by C12 and C09).",
      technique="seeded simulation of copy/write/growth/destroy interleavings with failing allocations against per-copy reference histories")

check("C11",
      [("c11.filter", 4000, 200000), ("c11.frequencies", 1200, 40000), ("c11.gmapping", 3000, 150000), ("c11.diversity", 1200, 80000), ("c11.limits", 3000, 150000), ("c11.e2e", 160, 8000)],
      rule="c11.filter: 1-40 particles through 1-12 rounds of weight patterns (similar, one-hot, zeros, all rejected, spread, tiny). "
           "c11.frequencies: 150-300 resamplings of one weight vector. c11.gmapping: real filter, scripted scores over 2-15 scans, good "
           "and faulty. c11.diversity: the real filter with motion noise, resampled again and again, each particle's noise recovered from its pose. c11.limits: which hypotheses a scan is matched against. c11.e2e: the shipped gmapping in a simulated room with a simulated lidar and faulty scans. Non-trivial: "
           "resampling happened, or faulty scans were delivered between good ones. Distinct by complete event log.",
      real=["ParticleFilter", "UniformResampling", "GmappingParticleFilter", "GmappingWorld", "init_gmapping and everything it selects "
            "(hill climbing matcher, scan probability estimator, weightings, scan adder, lazy tiled map, gmapping cell)"],
      stub=["std::random_device (seeded)", "robot, room and laser scanner (simulated)", "scan matcher (scripted, c11.gmapping, c11.diversity and c11.limits only)"],
      state_measure="(particles, quantised weights) vectors",
      note="Samples weight patterns, scan sequences and outcomes of the random device. Draw frequencies are judged with a bound of "
           "seven standard deviations plus eight, so distortions smaller than that are not seen.",
      technique="seeded simulation of sensor streams and resampling outcomes with invariant checks and candidate weight models")

check("C12",
      [("c12.fusion", 6000, 400000), ("c12.order", 4000, 200000), ("c12.soak", 1500, 40000)],
      rule="c12.fusion: 1-40 observations from simulated sensors pass a network that loses, delays, reorders, duplicates and corrupts "
           "them; every cell model gets the delivered sequence. c12.order: two delivery orders of one set. c12.soak: 3000-23000 "
           "observations. Non-trivial: at least three valid observations (fusion), at least two transpositions (order). Distinct by "
           "complete event log including all cell values.",
      real=["AffineQualityMergeCell", "MeanProbabilityCell", "TbmOccConsistentCell", "TbmUnknownEvenOccCell", "TBM", "GmappingBaseCell",
            "CredibilistCell"],
      stub=["sensors and message delivery (simulated)"],
      state_measure="quantised (affine, TBM occupancy, observation count) tuples",
      note="Samples observation sequences; equality up to 1e-9 against independent closed forms in extended precision (product forms "
           "for the belief models). Belief masses that underflow double range are checked for domain only.",
      technique="seeded simulation of observation delivery faults against closed-form reference fusion rules")

check("C10",
      [("c10.sequences", 3000, 150000), ("c10.aborts", 3000, 150000), ("c10.randomised", 600, 20000)],
      rule="A run draws a map kind, cell model, estimator configuration and matcher, then 1-6 matchings of one matcher object with a "
           "changing map, changing initial poses and good or faulty scans (c10.aborts: interrupted by an exception from the "
           "estimator, an observer or a failing allocation in between). c10.randomised: 100 matchings of a Monte-Carlo matcher. "
           "Non-trivial: some matching improved the pose and the object was used more than once. Distinct by complete event log.",
      real=["BruteForceScanMatcher", "HillClimbingScanMatcher", "HillClimbingSMFixed", "MonteCarloScanMatcher", "WeightedMeanPointProbabilitySPE",
            "all occupancy observation estimators, impact estimators and point weightings", "five cell models", "four map kinds"],
      stub=["robot, room and laser scanner (simulated)", "estimator and observer exceptions (injected)", "operator new (may fail)"],
      state_measure="(matcher, estimator, quantised score) tuples",
      note="Samples worlds, scans, poses and interruption points; scores are recomputed with an independent implementation of the scan "
           "probability (angle histogram weights are recomputed too, except for walls within 1e-5 bins of a bin border). Bounded maps are large enough to hold every scan: reads "
           "outside a bounded map are a precondition of the code, not part of this property.",
      technique="seeded simulation of matching sequences with injected aborts against an independent score and fresh matchers")

check("C05",
      [("c05.levels", 1800, 100000)],
      rule="A run draws the back map, initial size, scale, cell model and impact estimator, then a history of 3-42 updates, resets, border "
           "growth, readers switching scales, and crash/restart from the last completed save (plain back map). After every write "
           "(all known cells after growth and restart) each level is compared with the finest. Non-trivial: at least three cells and "
           "an inserted level or a restart. Distinct by complete event log.",
      real=["M3RSMRescalableGridMap and RescalableCachingGridMap over both unbounded maps", "GridRasterizedRectangle", "seven cell models",
            "both impact estimators", "serialization of map and cells"],
      stub=["writers, readers and restarts (simulated)"],
      state_measure="(levels, width, height) tuples",
      note="Samples histories; impacts closer than 2e-6 count as equal (the code compares with 1e-7 at every level). Only writes at the finest "
           "level are made (others are excluded by an assertion); failing allocations inside a write are not part of the property.",
      technique="seeded simulation of write/growth/restart histories, invariant over all levels, finest level against a twin map")

check("C06",
      [("c06.search", 1200, 60000), ("c06.partial", 1800, 100000), ("c06.aborts", 1200, 60000)],
      rule="A run draws a simulated room, map kind, cell model, estimator, search window and steps, then 1-3 matchings of good or faulty scans "
           "on a growing map, some started with a coarser level active (c06.aborts: preceded by matchings interrupted by an exception "
           "of the estimator, an observer or an allocation). c06.search: explored space, c06.partial: mostly unknown space. "
           "Non-trivial: the search improved on the initial pose (and a matching was aborted). Distinct by complete event log.",
      real=["BruteForceMultiResolutionScanMatcher", "M3RSMEngine", "Match", "M3RSMRescalableGridMap over both unbounded maps", "SafeRescalableMap",
            "WeightedMeanPointProbabilitySPE", "MaxOccupancyObservationPE", "point weightings", "five cell models"],
      stub=["robot, room and laser scanner (simulated)", "estimator and observer exceptions (injected)", "operator new (may fail)"],
      state_measure="(map kind, quantised score) tuples",
      note="Samples worlds, windows and interruption points; every candidate of the search lattice is scored by an independent "
           "implementation and must not beat the result by more than 1e-5. Only the maximum point probability estimator, which "
           "supplies upper bounds, is in scope.",
      technique="seeded simulation of matching sequences with injected aborts against brute-force evaluation of the search lattice")

check("C07",
      [("c07.ledger", 3000, 150000), ("c07.shipped", 2500, 120000)],
      rule="c07.ledger: a robot sends 2-10 scans through a network that loses, delays, reorders and duplicates them, with odometry jumps, "
           "faulty scans, margins longer than scans and failing matchings; the matcher is scripted (no, full, rotation-only, "
           "translation-only correction) or a real one. c07.shipped: SLAMs assembled from random configurations. Non-trivial: at least two "
           "scans delivered and a delivery fault or failed matching (ledger), at least one correction (shipped). Distinct by event log.",
      real=["SingleStateHypothesisLaserScanGridWorld", "LaserScanGridWorld", "RobotPose", "WallDistanceBlurringScanAdder", "init_1h_slam",
            "init_credibilist_slam", "four scan matchers", "four map kinds", "five cell models"],
      stub=["robot, room and laser scanner (simulated)", "message delivery (simulated)", "scripted outcomes and exceptions of the matcher (c07.ledger)"],
      state_measure="(map kind, cell, scans delivered, outcome) tuples",
      note="Samples scan streams and matcher outcomes. The map is compared, cell by cell, with one to which each scan was added once by a "
           "separate adder (decided by C09). Corrections between 0 and 1e-6 are not judged: the code treats them as none below 1e-7.",
      technique="seeded simulation of scan delivery and matcher faults against a pose ledger and a twin map")

check("C08",
      [("c08.single", 3000, 150000), ("c08.gmapping", 3000, 150000)],
      rule="A run draws a matcher, map kind, estimator and 1-5 observers, then 2-7 scans; observers of pose, map and matching subscribe, "
           "unsubscribe and die between scans and (three runs in four) inside notifications. Non-trivial: the set of observers changed, "
           "inside a notification where allowed. Distinct by complete event log.",
      real=["WorldObservable", "LaserScanGridWorld", "SingleStateHypothesisLaserScanGridWorld", "GmappingParticleFilter", "GridScanMatcher",
            "PoseEnumerationScanMatcher with all enumerators", "BruteForceMultiResolutionScanMatcher"],
      stub=["observers (simulated)", "robot, room and laser scanner (simulated)", "std::random_device (seeded)"],
      state_measure="subscription sets reached",
      note="Samples subscription histories. Observers subscribed during a notification are only required not to be called twice. Matchers "
           "that notify nobody (fixed hill climbing, idle, drift detector wrapper) are outside the property.",
      technique="seeded simulation of subscription/death schedules, including re-entrant ones, with history checks")

check("C09",
      [("c09.const", 6000, 300000), ("c09.area", 9000, 300000)],
      rule="A run draws an adder configuration (estimates, blur, usable range, point quality), a scale and 1-5 maps of different kinds, then "
           "1-6 scans: faulty ones (empty, dropouts, outliers, replays, zero-range and far points, cartesian points), poses on grid lines, "
           "corners and cell centres, margins, integrations into other maps that run out of memory in between. Non-trivial: growth, a "
           "fault or several maps. Distinct by event log including marked cells.",
      real=["GridMapScanAdder", "WallDistanceBlurringScanAdder", "RegularSquaresGrid::world_to_cells", "ConstOccupancyEstimator",
            "AreaOccupancyEstimator", "both observation quality estimators", "six map kinds"],
      stub=["grid cell (records the observations it gets)", "robot, room and laser scanner (simulated)", "operator new (may fail)"],
      state_measure="(cells marked, maps) tuples",
      note="Samples scan sequences. Crossed cells are computed by clipping in extended precision; cells touched by less than about 1e-7 m and "
           "beams ending on a cell border are not judged. Area estimates are judged by polygon clipping; angle histogram weights by counting; where a beam or its end comes within 1e-5 cells of a border or corner, or a wall within 1e-5 bins of the border of a bin, the code itself is reused (fresh objects).",
      technique="seeded simulation of faulty scan streams against exact clipping of beams with cells and of cells with walls")

check("C03",
      [("c03.restart", 2400, 120000), ("c03.soak", 150, 8000)],
      rule="A run draws the map (unbounded plain, or multi-resolution over it), cell model, size and scale, then a history of 2-37 updates, "
           "resets, saves (also with a coarser level active) and crashes; a crash drops everything since the last completed save and "
           "restarts from it in an object of another size, scale and previous content. c03.soak: 100-66000 observations of a cell between "
           "restarts. Non-trivial: at least one restart with a non-empty history. Distinct by complete event log.",
      real=["UnboundedPlainGridMap", "M3RSMRescalableGridMap / RescalableCachingGridMap over it", "Serializer, Deserializer", "seven cell models"],
      stub=["the writer, its crashes and restarts (simulated)", "the disk (a byte vector; its faults belong to C04)"],
      state_measure="(cell model, restarts, history length, extent) tuples",
      note="Samples histories and crash points. The reference is a map of the original configuration that replays the surviving history "
           "without interruption; every level, cell and, through further observations, hidden evidence must be bit-identical.",
      technique="seeded simulation of crash/restart histories against an uninterrupted replay")

check("C04",
      [("c04.map", 9000, 600000), ("c04.scan", 5000, 200000), ("c04.tool", 900, 30000)],
      rule="c04.map: 4-19 loads of cut states (any byte, and around level boundaries) and of complete ones with a failing allocation into "
           "one used map. c04.scan: 24 cuts of one text scan. c04.tool: the whole sm_runner, as a process, on pose/map/scan files of a "
           "simulated room: cut at any byte, failing read or open, short and interrupted reads. Non-trivial: every run with a fault on a "
           "non-empty file. Distinct by complete event log.",
      real=["UnboundedPlainGridMap", "M3RSMRescalableGridMap / RescalableCachingGridMap", "Deserializer", "seven cell models", "LaserScan2D operator>> and operator<<",
            "sm_runner.cpp including main(), configuration, matcher and map set-up", "libstdc++ file streams"],
      stub=["fopen, read (simulated faults on real scratch files)", "operator new (may fail)", "robot, room and laser scanner (simulated)"],
      state_measure="(kind of fault, file, cut) tuples",
      note="Samples cuts and read fault patterns. A cut inside the last number of a pose file leaves a well-formed pose and is outside the "
           "property. Reads beyond the data are caught by the address sanitizer on exactly sized buffers.",
      technique="seeded simulation of a failing disk against the complete file's content", sim=["fileio.cpp"])

check("C18",
      [("c18.config", 7000, 400000)],
      rule="A run draws 1-6 files in four directories with keys, comments, blank, malformed, very long and include lines (relative paths in "
           "several notations, missing files, cycles) and 1-4 user operations; the healthy load and 2-4 loads under short and interrupted "
           "reads, a failing read or open are compared with the reference. Non-trivial: several files or a fault. Distinct by complete event log.",
      real=["FilePropertiesProvider", "MapPropertiesProvider", "libstdc++ file streams"],
      stub=["fopen, read (simulated faults on real scratch files)"],
      state_measure="(files read, keys loaded, cycle, missing file) tuples",
      note="Samples include graphs and fault positions. After a read error in the middle of a file only soundness (no key or value that is in "
           "no file) and the report are judged.",
      technique="seeded simulation of a failing disk under the configuration reader against an in-memory reference", sim=["fileio.cpp"])

check("C13",
      [("c13.topic", 25000, 1500000), ("c13.trig", 8000, 400000)],
      rule="c13.topic: a robot drives for 0.5-4 simulated seconds, sends transforms and scans over links that lose, duplicate, delay, reorder, "
           "stall and hold back; scans with bad ranges, no ranges, any direction and size, skewed stamps, unknown frames; other observers "
           "subscribe before and after and die, also inside the callback. c13.trig: a reused cache over several scan geometries. "
           "Non-trivial: at least two scans handed over. Distinct by complete event log.",
      real=["TopicWithTransform", "LaserScanObserver", "RawTrigonometryProvider", "CachedTrigonometryProvider", "ScanPoint2D"],
      stub=["roscpp, tf, message_filters (simulated, tf2 buffer semantics)", "robot and scanner (simulated)", "SLAM (records what it gets)"],
      state_measure="(scans sent, scans handed, reordering, configuration) tuples",
      note="Samples transport behaviour. What arrives with a usable transform is decided by a second listener on the same simulated network. "
           "Scan messages whose angles contradict the number of their ranges are a precondition violation and not sent.",
      technique="seeded simulation of a faulty transport with a second listener as the reference")

check("C15",
      [("c15.grid", 9000, 500000), ("c15.slam", 5000, 250000), ("c15.node", 2500, 150000)],
      rule="c15.grid: any map kind and cell model, 2-11 publications attempts between random updates and growth under a simulated clock that "
           "stands, creeps, jumps ahead and back. c15.slam: any SLAM configuration as set up by the nodes, fed with scans of a simulated room. c15.node: main() of a node fed over a faulty transport. "
           "Non-trivial: some updates published and some not (grid), something published (slam), several grids published (node). Distinct by complete event log.",
      real=["OccupancyGridPublisher", "create_occupancy_grid_publisher", "six map kinds", "seven cell models", "whole SLAMs (single hypothesis, credibilist, gmapping)", "main() of the three nodes"],
      stub=["roscpp, tf, message_filters and clock (simulated)", "robot, room and laser scanner (simulated)"],
      state_measure="(map, cell, publications, growth) tuples",
      note="Samples update histories and clock behaviour. After a backward clock jump nothing is judged until the clock passes the last "
           "publication; publications within 1 us of the interval are not judged.",
      technique="seeded simulation of clock faults and map histories against the map's own content",
      flags=["-fpermissive"])

check("C16",
      [("c16.bag", 24000, 2500000), ("c16.runner", 3000, 200000)],
      rule="A drive is recorded at the end of links that lose, duplicate, delay, reorder, stall and hold back; recordings have gaps up to 40 "
           "minutes, unknown frames, conflicting transforms to be ignored, split and mixed transform messages, optional slashes. c16.bag: the "
           "reader itself. c16.runner: main() of the bag runner as a process with a drawn SLAM configuration file, trajectory and map output. "
           "Non-trivial: scans waited or dropped (bag), several scans handled (runner). Distinct by complete event log.",
      real=["BagTopicWithTransform", "lslam2D_bag_runner.cpp including main()", "LaserScanObserver", "RobotPoseTumTrajectoryDumper", "GridMapToPgmDumber",
            "FilePropertiesProvider", "single hypothesis SLAM and gmapping in every configuration"],
      stub=["rosbag, tf, roscpp (simulated, tf2 buffer semantics)", "robot, room and scanner (simulated)"],
      state_measure="(scans handled, dropped, queue length, configuration) tuples",
      note="Samples recordings. The reference works through the recording in order and hands on the head of its queue as soon as the transforms "
           "recorded so far resolve it; a scan older than all transforms recorded so far is dropped.",
      technique="seeded simulation of recordings made over a faulty transport against an in-order reference reader", sim=["fileio.cpp"])

check("C17",
      [("c17.dump", 16000, 900000), ("c17.slam", 3500, 180000), ("c17.runner", 2500, 150000), ("c17.long", 60, 3000)],
      rule="c17.dump: map histories over every map kind and cell model with 2-15 updates, dumps of one or two dumpers and trajectory lines with "
           "any stamp and pose. c17.slam: dumpers subscribed to a whole SLAM. c17.runner: the bag runner as a process with trajectory and map "
           "output. c17.long: 130-540 dumps. The disk interrupts, accepts parts, fills up, fails for good, once or on open; the process is "
           "killed after any byte. Non-trivial: several files or lines (dump), a failing disk (others). Distinct by complete event log.",
      real=["GridMapToPgmDumber", "RobotPoseTumTrajectoryDumper", "lslam2D_bag_runner.cpp including main()", "whole SLAMs", "six map kinds, seven cell models", "libstdc++ file streams"],
      stub=["fopen, write, writev (simulated faults on real scratch files)", "roscpp, tf, rosbag (simulated)", "robot, room and scanner (simulated)"],
      state_measure="(map, cell, dumps, lines, fault) tuples and sizes left on disk",
      note="Samples histories, faults and crash points. A single failing write is not combined with partial writes: libstdc++ then repeats bytes of "
           "its buffer. Poses are compared to the six significant digits the format has; intensities to one unit.",
      technique="seeded simulation of a failing, filling and crashing disk against the map's content and the logged poses", sim=["fileio.cpp"])

check("C14",
      [("c14.publisher", 22000, 3500000), ("c14.node", 2800, 300000)],
      rule="c14.publisher: the correction publisher alone, its thread scheduled at every lock, clock reading, sleep, broadcast and copy of a "
           "transform; 0-8 scans with any odometry and pose, missing and repeated pose updates, quiet phases, slow threads, shutdown in a callback, "
           "before or after the destructor, destruction while running. c14.node: main() of the three nodes with a drawn configuration (parameters "
           "or file), a drive over a faulty transport, shutdown at any time. Non-trivial: more than four thread switches or several synchronous "
           "corrections (publisher), at least two poses (node). Distinct by complete event log.",
      real=["PoseCorrectionTfPublisher and its thread", "RobotPoseTfPublisher", "ObservationStampedRoboPoseTfPublisher", "main() of single_hypoth_slam_node.cpp, credibilist/slam.cpp and gmapping.cpp with all they set up",
            "LaunchPropertiesProvider", "std::thread and std::mutex of libstdc++"],
      stub=["thread scheduler, sleeping and clocks (simulated)", "roscpp, tf, message_filters (simulated, tf2 buffer semantics)", "robot, room and scanner (simulated)"],
      state_measure="hashes of the order in which threads pass scheduling points",
      note="Samples schedules. Broadcasts of an earlier correction are accepted within 0.1 s after a newer one; main() runs as a function returning "
           "nothing because only a function called main may end without a return statement.",
      technique="seeded scheduling of the real threads under simulated time and transport; replay of the arrived scans through a SLAM alone as the reference",
      sim=["threads.cpp", "fileio.cpp"], flags=["-fpermissive"])

check("C19",
      [("c19.history", 1000, 100000), ("c19.threads", 1200, 120000)],
      rule="c19.history: 2-4 SLAMs with any configuration, seed and stream (some equal, some differing in one key, some fed copies of one scan) are "
           "constructed, fed, starved of memory in construction or inside a scan, and destroyed in any order, several times each. c19.threads: 2-3 "
           "SLAMs in threads of their own, preempted at drawn function entries anywhere in the code. Non-trivial: several checked scans of several "
           "SLAMs (history), more than eight thread switches (threads). Distinct by complete event log or schedule.",
      real=["single hypothesis SLAM, credibilist SLAM and gmapping in every configuration", "everything they are built from"],
      stub=["thread scheduler (simulated)", "operator new (simulated allocator, may fail)", "std::random_device (seeded per instance and scan)", "robot, room and laser scanner (simulated)"],
      state_measure="hashes of the history or of the order in which threads pass scheduling points",
      note="Samples configurations, histories and schedules. The reference of each instance is its run alone in a process of its own. Poses, scores, "
           "weights, map extents and cells are compared bit by bit. Function-local statics are initialised under the simulated scheduler.",
      technique="seeded interleaving of instances, threads and failures against each instance's run alone",
      sim=["threads.cpp"], flags=["-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/,/verif/"])

check("C20",
      [("c20.track", 160, 20000), ("c20.typical", 24, 1500)],
      rule="A simulated robot with drifting odometry drives 70-140 scans through a drawn room with obstacles; after a warm-up, bursts of lost, empty, "
           "duplicated, noisy or partly blocked scans and odometry slips of up to 0.14 m and 0.06 rad come at drawn times. c20.typical: the median error of seven such drives. Non-trivial: at least one burst. "
           "Distinct by complete event log.",
      real=["tiny (two cell models), viny, credibilist, hill climbing, M3RSM and gmapping configurations of /repo/config", "everything they are built from"],
      stub=["robot, room, laser scanner and odometry (simulated)", "std::random_device (seeded)"],
      state_measure="(configuration, fault kind, scans since the last fault, size of the error)",
      note="Closed loop, sampled. Bounds are about twice the largest error of several thousand calibration runs: 0.8-1.0 m and 0.15 rad for deterministic matchers, "
           "0.45 m and 0.2 rad for gmapping, 2 m and 0.45 rad for Monte Carlo matching, 0.35 rad for the viny weighting, whose lateral error is not judged. "
           "Recovery is due within 12 good scans. The viny_slam_experimental configuration is not judged: its matcher leaves the true pose at local extrema.",
      technique="closed-loop simulation of seeded drives with sensor faults against ground truth",
      flags=["-O2", "-fno-sanitize=all"])

check("C21",
      [("c21.path", 9000, 1500000), ("c21.longpath", 200, 40000), ("c21.adapter", 12000, 2000000)],
      rule="c21.longpath: as c21.path without faults, hundreds to thousands of poses. c21.path: main() of path_publisher with drawn parameters; one to three tf links between the map and the base whose true motion is linear in time, sent over "
           "links that first fail and then recover, shutdown at the end. c21.adapter: main() of wg_pr2_bag_adapter fed bursts of recorded transforms (1-300 messages per "
           "second, any mix of corrections, near misses and others, frames with and without leading slashes) and maps over faulty links, shutdown at any time. Non-trivial: three "
           "poses after the faults (path), two corrections (adapter). Distinct by complete event log.",
      real=["main() of path_publisher.cpp", "main() of wg_pr2_bag_adapter.cpp", "LaunchPropertiesProvider", "init_utils.h parameters"],
      stub=["roscpp with its callback queues, tf listener, buffer and broadcaster (simulated)", "clock and sleeping (simulated)", "robot and recording (simulated)"],
      state_measure="milliseconds of drive at which a pose was taken (path), (transforms, maps) relayed (adapter)",
      note="Samples histories. No more than a second's traffic is ever held back at once. The adapter's output before the first recorded map is not judged.",
      technique="seeded simulation of whole helper nodes over a faulty transport against the true motion and the recorded stream", flags=["-fpermissive"])
