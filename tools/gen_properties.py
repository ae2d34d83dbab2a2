#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one place to edit the property texts).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": mech, "where": files[0]}]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

MAPS = ["src/core/maps/grid_map.h", "src/core/maps/plain_grid_map.h",
        "src/core/maps/lazy_tiled_grid_map.h", "src/core/maps/regular_squares_grid.h"]

p("C01", "Map writes survive growth: never lost, moved, duplicated or invented",
  "Every grid map returns, for every coordinate, exactly the content produced by the writes (updates and resets) addressed to that coordinate, in order, however often and in whatever direction the map grew in between; coordinates never written read as the unknown prototype, and every written coordinate lies inside the extent the map reports. "
  "If a write fails because memory runs out, all earlier content is still there, the failed write is applied entirely or not at all, and the map keeps working. "
  "All map kinds give the same answers for the same write history.",
  ["histories", "fault_sequences", "configurations"],
  "all write/read histories over near, adjacent, far, negative and diagonal coordinates; all initial sizes; all map kinds and cell models; an allocation failure at any allocation of any operation",
  "The unit tests check a handful of single expansions of each map on a fresh map with no failures; the guarantee is over all histories, all initial sizes and all failure points.",
  MAPS, "growth on demand that relocates rows/tiles and shifts the origin; copy-on-write tiles",
  [("cells/tiles", "storage relocated at growth"), ("origin", "internal offset of external coordinate (0,0)")])

p("C02", "Hypotheses never see each other's map changes",
  "Copies of a tiled map share storage but are semantically independent: after any interleaving of copying, assigning, writing, growing and destroying copies, each copy holds exactly what its own history wrote. "
  "The same holds for the particles of the gmapping particle filter: each particle maintains its own map, a freshly resampled duplicate starts with the same pose, weight and map content as the particle it was drawn from, and from then on neither affects the other. "
  "A write that fails for lack of memory never leaks a change into another copy.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of operations of several copy holders (particles), all copy graphs, all resampling outcomes, allocation failure at any point",
  "Tests copy one map once; sharing bugs need a specific interleaving of copies and writes, or a particular resampling outcome decided by a random device.",
  ["src/core/maps/lazy_tiled_grid_map.h", "src/slams/gmapping/gmapping_world.h", "src/slams/gmapping/gmapping_particle_filter.h",
   "src/core/particle_filter.h", "src/core/states/single_state_hypothesis_laser_scan_grid_world.h"],
  "copy-on-write of tiles and cells guarded by reference counts; particle copying at resampling")

p("C03", "Saved maps restore exactly and continue as if never interrupted",
  "For the map kinds that support saving, a state saved at any moment and loaded by a fresh process into a map configured with any size and scale yields the same extent, origin and scale, and for every coordinate the same occupancy, estimation quality and known/unknown status. "
  "Any further history of observations applied to the restored map gives the same content as applying it to the uninterrupted one, for every cell model. "
  "Saving does not change the map.",
  ["crash_points", "histories", "configurations"],
  "all update histories, any crash-and-restart instants (also repeated), all cell models with serialization, plain unbounded and multi-resolution maps",
  "Tests save and load one small fixed map per type and compare it at once; they never continue after a restart, so state that is not persisted is invisible to them.",
  ["src/core/serialization.h", "src/core/maps/plain_grid_map.h", "src/core/maps/rescalable_caching_grid_map.h", "src/core/maps/grid_cell.h",
   "src/core/maps/naive_grid_cells.h", "src/core/maps/tbm_grid_cells.h", "src/slams/credibilist/grid_cell.h", "src/slams/gmapping/gmapping_grid_cell.h"],
  "binary serialization of the map header and of each cell's evidence; load into a map of another shape")

p("C04", "Truncated or unreadable input files never become invented data",
  "When a saved map (of a kind that supports saving), scan or pose file ends early (torn write, crash during saving, read error) at any byte before its last value is complete or, for a pose, before the last number starts, loading either yields exactly the content the file would have yielded in full or is refused; it never reads beyond the data, never produces cells, scan points or pose components that are not in the file, and the offline scan matching tool does not report a match computed from such data. "
  "A map whose restoration was refused still holds its previous content. "
  "Short reads and interrupted system calls that deliver the whole file in pieces change nothing.",
  ["crash_points", "fault_sequences", "inputs"],
  "every truncation length of each file, read errors at every read call, short and interrupted reads in any pattern",
  "No test loads a damaged file; the fault space is every cut position and every failing read.",
  ["src/core/serialization.h", "src/core/maps/plain_grid_map.h", "src/core/maps/rescalable_caching_grid_map.h", "src/core/states/sensor_data.h", "src/utils/sm_runner.cpp"],
  "bounds of the binary deserializer, stream-state handling of the text formats, staging of a restored state before it replaces the old one")

p("C05", "Coarse map levels never under-estimate the finest level",
  "At every moment of any history of observations, resets, growth and restarts, the obstacle impact read from any coarser level of a multi-resolution map is at least the maximum impact of all known finest-level cells inside that coarse area. "
  "There is always one coarsest level that covers the whole plane. "
  "Working with coarser levels leaves the finest content exactly as the observations made it.",
  ["histories", "crash_points", "configurations"],
  "all observation histories over all coordinates, any growth pattern, initial size, back map kind, cell model, impact estimator, save/restore points",
  "Tests check bounds after a few updates inside the initial extent; the bound must survive level insertion caused by growth and restarts.",
  ["src/core/scan_matchers/m3rsm_engine.h", "src/core/maps/rescalable_caching_grid_map.h", "src/core/maps/grid_rasterization.h"],
  "propagation of the maximum impact to all coarser levels on update; insertion of levels when the finest map grows")

p("C06", "Multi-resolution matching finds the optimum and leaves the map alone",
  "The branch-and-bound multi-resolution matcher (with the maximum point probability, which supplies its upper bounds) returns a pose inside its search window, with the probability that the scan really has at that pose, not lower than the probability of the initial pose or of any rotation/translation candidate on its own search lattice, and it always terminates. "
  "The map's active scale and content are unchanged afterwards, also when the matching is cut short by an exception (failing allocation, observer or estimator). "
  "The result does not depend on earlier, possibly interrupted, matchings.",
  ["histories", "fault_sequences", "inputs"],
  "all map histories, scans, poses and search windows; an exception at any allocation, observer callback or estimator call; any sequence of matchings on one matcher",
  "Tests match a few hand-made scans on pristine maps; bound violations and leaked scale depend on the map's growth history and on interruption points.",
  ["src/core/scan_matchers/bf_multi_res_scan_matcher.h", "src/core/scan_matchers/m3rsm_engine.h", "src/core/maps/rescalable_caching_grid_map.h"],
  "best-first search over upper bounds taken from coarser levels; scale guard restoring the active level")

p("C07", "Pose accounting: every scan moves the pose by odometry plus correction",
  "After every delivered scan the single-hypothesis pose equals the previous pose plus the scan's odometry increment plus the correction its scan matcher reported, and the scan is integrated into the map exactly once, at the corrected pose, with the configured quality for corrected or uncorrected scans and the configured margin. "
  "Scans that are empty, shorter than the margin, duplicated, reordered or carry large jumps, and scan matchings that fail with an exception (the scan is then not integrated), never make the pose accounting drift or a scan be integrated twice. "
  "The map is not changed before matching has finished.",
  ["histories", "fault_sequences"],
  "all scan/odometry sequences with loss, duplication, reordering, empty scans and outliers; any sequence of matcher outcomes including exceptions",
  "No test drives the world through a sequence of scans; only single primitives are tested.",
  ["src/core/states/single_state_hypothesis_laser_scan_grid_world.h", "src/core/states/laser_scan_grid_world.h", "src/core/states/world.h", "src/core/states/robot_pose.h"],
  "order of pose update, matching, correction and scan integration in the sensor data handler")

p("C08", "Observers hear of every update exactly once, in order, while alive",
  "Each processed scan notifies every live subscribed observer exactly once with the final pose and then with the final map, in subscription order; destroyed or unsubscribed observers are never called. "
  "Observers of the pose-searching scan matchers (brute force, hill climbing, Monte-Carlo) see one start, every tested candidate, every accepted candidate, and one end that agrees with the returned result; those of the multi-resolution matcher see the start and the end. "
  "This holds when observers subscribe, unsubscribe or die at any time, including from inside a notification.",
  ["schedules", "histories"],
  "all interleavings of subscriptions, unsubscriptions, destructions (also re-entrant ones) with scans, for single-hypothesis and particle filter SLAM and all matchers",
  "Tests subscribe at most one observer and never change the set while running.",
  ["src/core/states/world.h", "src/core/states/laser_scan_grid_world.h", "src/core/scan_matchers/grid_scan_matcher.h",
   "src/core/scan_matchers/pose_enumeration_scan_matcher.h", "src/core/scan_matchers/bf_multi_res_scan_matcher.h", "src/slams/gmapping/gmapping_particle_filter.h"],
  "lists of weak references walked on each notification")

p("C09", "Scan integration marks exactly the observed space",
  "Integrating a scan applies one observation to each cell its beams cross: the cell holding an occupied beam end gets the occupied estimate, cells crossed before it the free estimate (within the blur distance of an obstacle the occupied estimate scaled by 1-(distance/blur)^2), all weighted by the scan's and the point's quality; the area estimator reports the share of the end cell behind the wall as occupied, and trusts a crossed cell the more the more evenly the beam splits it, wherever the cell lies; cells no beam crosses, beams longer than the usable range and the points in the margin at both ends of the scan contribute nothing. "
  "The outcome is the same for every map kind large enough to hold the beams and whatever was mapped before, and unaffected by how often the map had to grow during integration or by an integration that was aborted.",
  ["histories", "inputs", "configurations"],
  "all sequences of scans and poses as delivered by a faulty sensor (dropouts, outliers, out-of-range points, duplicates, empty scans), all adder configurations",
  "Tests integrate single beams on one map; the guarantee is over sequences, poses and configurations, and history dependence is invisible in one-shot tests.",
  ["src/core/maps/grid_map_scan_adders.h", "src/core/maps/regular_squares_grid.h", "src/core/maps/const_occupancy_estimator.h", "src/core/maps/area_occupancy_estimator.h",
   "src/core/features/angle_histogram.h", "src/core/states/sensor_data.h"],
  "beam rasterization, occupancy estimation per cell, blur and range rules")

p("C10", "Scan matchers never worsen the pose, report true scores, keep no history",
  "Every pose-searching scan matcher (brute force, hill climbing, Monte-Carlo) returns a correction whose score, recomputed from scratch, equals the score it reported and is never lower than that of the initial pose; the exhaustive matcher is never beaten by any candidate of its window centred at the current initial pose, hill climbing never by a pose one configured step from the initial pose nor one final step from its result; every matcher stops, the ones with a limit of attempts within it and not before their failed attempts are used up. "
  "Map and scan are left unchanged. "
  "The outcome depends only on map, scan, initial pose and (for the randomised matcher) its random stream, not on scans matched or matchings aborted before. With the ambiguous-drift detector around a matcher the reported score is still that of the returned correction and nothing is remembered.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of matchings over changing poses, maps and faulty scans; aborts by exceptions at any candidate; all matcher types and parameters",
  "Tests run each matcher once, from one pose, on a fresh object; leftovers of an earlier or aborted scan cannot show.",
  ["src/core/scan_matchers/pose_enumeration_scan_matcher.h", "src/core/scan_matchers/brute_force_scan_matcher.h", "src/core/scan_matchers/hill_climbing_scan_matcher.h",
   "src/core/scan_matchers/monte_carlo_scan_matcher.h", "src/core/scan_matchers/hcsm_fixed.h", "src/core/scan_matchers/weighted_mean_point_probability_spe.h",
   "src/core/scan_matchers/occupancy_observation_probability.h"],
  "greedy candidate acceptance; enumerator reset between scans; shared estimator state")

p("C11", "The particle filter stays healthy under any sensor stream",
  "After every scan the filter has the configured number of particles, their weights are finite, non-negative and sum to one, and the reported pose and map are those of a heaviest particle. "
  "A scan that gives no information (empty, before any map exists, contradicting all hypotheses) never disables the filter: later good scans are weighted, mapped and resampled as usual. "
  "Resampling happens only when the effective number of particles is below half and the robot has moved since the last one (a good half metre or a turn), keeps the particle count, draws each particle with frequency proportional to its weight and never draws one of weight zero. "
  "Exactly one hypothesis follows odometry and matching without the configured noise; all others, copies made by resampling included, get independent noise of the configured distribution on every matched scan, so copies diverge. "
  "That one is matched with every scan, the others as soon as, and not before, they moved or turned by their configured limits since their last matching; in between they follow the odometry.",
  ["histories", "fault_sequences", "schedules"],
  "all sequences of good, empty, contradicting and duplicated scans and odometry; all outcomes of the random devices; all particle counts",
  "There is no test of the particle filter at all; degeneracy needs a specific scan sequence and resampling outcomes.",
  ["src/core/particle_filter.h", "src/slams/gmapping/gmapping_particle_filter.h", "src/slams/gmapping/gmapping_world.h", "src/slams/gmapping/gmapping_occupancy_observation_pe.h"],
  "weight update, normalisation, effective sample size, resampling, master particle bookkeeping")

p("C12", "Cell evidence is exact, bounded and indifferent to delivery accidents",
  "After any sequence of valid observations the occupancy of each cell model equals that of its documented fusion rule (running mean, affine merge, belief combination, hit ratio), stays finite and between 0 and 1, and observations marked invalid leave the cell untouched. "
  "For the order-free models, the same set of observations delivered in another order gives the same cell. "
  "An observed cell is known, an unobserved one unknown, and the discrepancy between a cell and an observation follows from the combined evidence by the model's rule and stays between 0 and 1.",
  ["histories", "fault_sequences"],
  "all observation sequences, as lost, duplicated, reordered and corrupted (invalid, zero-quality, contradictory) on their way from several sensors",
  "Tests feed two or three observations per cell; drift, total conflict and order effects need long or unusual sequences.",
  ["src/core/maps/naive_grid_cells.h", "src/core/maps/tbm_grid_cells.h", "src/core/maps/transferable_belief_model.h", "src/slams/credibilist/grid_cell.h",
   "src/slams/credibilist/TBM_prob_conversion.h", "src/slams/gmapping/gmapping_grid_cell.h", "src/core/maps/grid_cell.h"],
  "per-cell recursive evidence fusion")

p("C13", "Odometry and scans reach the SLAM once each, whatever the transport does",
  "Every laser scan message that reaches the node together with a usable transform is handed to the SLAM exactly once, in order of delivery, with an odometry increment equal to the difference of the odometry poses at this and the previously handed scan, so that increments add up to the total odometry motion despite lost, late, duplicated or reordered messages. "
  "Points below the minimum range or not finite never enter the scan as obstacles, points at or beyond the maximum range are free space or skipped as configured, and each point keeps its own bearing. "
  "Cached trigonometry gives the same world points as direct computation.",
  ["schedules", "fault_sequences", "inputs"],
  "all delivery schedules of scan and transform messages with loss, delay, duplication and reordering, any range readings including NaN and infinities, both configuration switches",
  "The ROS layer has no tests here and is not even compiled by the test build.",
  ["src/ros/topic_with_transform.h", "src/ros/laser_scan_observer.h", "src/core/trigonometry_utils.h", "src/core/states/sensor_data.h"],
  "message filter callback, differencing of odometry poses, per-range filtering")

p("C14", "The published map->odom correction always closes the transform chain",
  "Each map->odom transform that is broadcast, composed with the odometry transform of the scan that produced it, yields the SLAM pose of that scan; no broadcast ever mixes parts of two corrections, whether sent by the sensor callback or by the background publisher. "
  "In asynchronous mode the latest correction keeps being re-broadcast periodically while no scans arrive, and shutting the node down at any moment ends cleanly. "
  "The robot pose broadcast carries the SLAM pose and the right time stamp.",
  ["schedules", "crash_points"],
  "all interleavings of the sensor callback thread and the publisher thread at lock, clock and broadcast operations; shutdown at any point; all transport schedules",
  "Nothing in the test suite starts the publisher or its thread.",
  ["src/ros/pose_correction_tf_publisher.h", "src/ros/robot_pose_observers.h", "src/ros/init_utils.h"],
  "mutex-protected transform shared between the callback and a periodic publishing thread")

p("C15", "Published occupancy grids mirror the map at a bounded rate",
  "Each published occupancy grid has the map's extent, resolution and origin at the time of publication, and its cells in row-major order carry the map's occupancy as a percentage, with unknown as -1. "
  "The first map update is published and later ones no more often than the configured interval of the node's clock, and once the interval has passed the next update is published. "
  "Growth of the map between publications never produces a grid with mismatched size. Each SLAM node publishes its map this way for as long as it runs.",
  ["schedules", "histories"],
  "all map histories and update times, clock advances and stalls",
  "The publisher is not compiled by the test build; rate limiting depends on a clock.",
  ["src/ros/occupancy_grid_publisher.h", "src/ros/init_utils.h", "src/ros/single_hypoth_slam_node.cpp", "src/slams/gmapping/gmapping.cpp", "src/slams/credibilist/slam.cpp"],
  "rate limiter on the node clock; row-major dump of the active map extent")

p("C16", "Offline bag processing handles every resolvable scan once, in order",
  "The bag runner hands each recorded scan whose transform can be resolved from the recorded transforms to the SLAM exactly once and in recorded order, waits for transforms recorded after the scan, and drops a scan only if all transforms recorded so far begin after it or the recording ends without resolving it, never losing the scans behind it. "
  "The trajectory file has one line per handled scan, in order, with the scan's own time stamp and the pose after that scan. "
  "Ignored transforms are not used.",
  ["schedules", "fault_sequences", "histories"],
  "all recorded interleavings of scan and transform messages with gaps, delays, duplicates and missing frames",
  "Needs ROS bags; untested.",
  ["src/ros/bag_topic_with_transform.h", "src/ros/lslam2D_bag_runner.cpp", "src/ros/robot_pose_observers.h", "src/ros/init_utils.h"],
  "queue of unresolved scans in front of a transform cache")

p("C17", "Map and trajectory dumps are complete or detectably incomplete",
  "A map image written to a healthy disk has a header matching the map's extent and exactly one byte per cell, top row first, dark for occupied, light for free and mid-grey for unknown, and successive dumps of one run never overwrite one another. "
  "Trajectory lines parse back to the logged time and pose. "
  "When the disk fails or fills up or the process is killed, what is on disk is a prefix of the correct file, already finished dumps and flushed trajectory lines stay intact, and SLAM carries on unaffected.",
  ["fault_sequences", "crash_points", "histories"],
  "all map contents and shapes, write errors, short writes, full disk and crash at any write",
  "No test writes a dump, let alone to a failing disk.",
  ["src/utils/map_dumpers.h", "src/ros/robot_pose_observers.h"],
  "sequential stream output, flush policy")

p("C18", "Configuration files are read completely, or the gap is reported",
  "Reading a configuration yields exactly the key/value pairs of the file and its transitively included files (relative to the including file), ignoring comments, blank and malformed lines; a key set twice in one file takes the last value, and keys already loaded are not overridden by later files (a file counts as loaded once it has been read to its end, hence after the files it includes). "
  "Missing and unreadable files and read errors are reported with a warning naming the file, the rest is loaded, and include cycles end. "
  "Short or interrupted reads do not change the result.",
  ["inputs", "fault_sequences"],
  "all include graphs (also cyclic), line contents, missing files, short/interrupted reads at any position",
  "Not tested at all.",
  ["src/utils/properties_providers.h"],
  "recursive descent over include lines; merge of key/value maps")

p("C19", "SLAM instances are independent and repeatable",
  "The sequence of poses, scores and maps a SLAM instance produces depends only on its own configuration, its own random seed and its own input stream: running it again gives bit-identical results, and other instances constructed, fed, failing or destroyed in the same process, interleaved in any way, change nothing. "
  "This holds for every combination of map, cell, occupancy estimator, scan matcher and point weighting selectable by configuration.",
  ["schedules", "configurations", "histories"],
  "all interleavings of several instances with different configurations; all configurations; all input streams",
  "Each test builds one object per process state; hidden process-wide state needs two instances and a specific order.",
  ["src/utils/init_slam.h", "src/utils/init_scan_matching.h", "src/utils/init_occupancy_mapping.h", "src/core/maps/area_occupancy_estimator.h",
   "src/core/scan_matchers/weighted_mean_point_probability_spe.h", "src/slams/gmapping/gmapping_occupancy_observation_pe.h", "src/slams/credibilist/init_slam.h"],
  "absence of shared mutable state between instances; all randomness from per-instance seeds")

p("C20", "Localization survives sensor faults and recovers",
  "A robot driving through a static, structured environment is tracked: while scans are fault-free the estimated pose stays close to the true one (with viny weighting: the heading does) although odometry drifts. "
  "After bursts of lost, empty, duplicated, noisy or partly blocked scans and moderate odometry slips the error returns to its normal bound within a bounded number of good scans. "
  "Over several drives the typical error stays in the range calibrated for the configuration. The map built agrees with the environment: cells well inside free space end up free and walls seen many times occupied.",
  ["histories", "fault_sequences", "configurations"],
  "all trajectories, environments, noise and fault bursts within the stated magnitudes, for the shipped matcher and map configurations",
  "No test runs the SLAM end to end.",
  ["src/core/states/single_state_hypothesis_laser_scan_grid_world.h", "src/utils/init_slam.h", "src/slams/gmapping/gmapping_particle_filter.h", "src/core/scan_matchers", "src/core/maps/grid_map_scan_adders.h", "config/slams"],
  "closed loop of matching against the map under construction")

p("C21", "Helper nodes relay transforms faithfully",
  "path_publisher: every publication extends the path by exactly one pose, which is position and heading of the base in the map frame according to transforms that have arrived, with their common stamp and as fresh as the transforms "
  "that arrived while it was being looked for; earlier poses never change; missing or late transforms only delay the next pose, at most the configured rate is published, and once transforms flow again poses follow within bounded time. "
  "wg_pr2_bag_adapter: every transform received is broadcast exactly once, soon, in order and unchanged, except that in place of each recorded map->odom correction the first one is sent as provided_map->map with the stamp of the one replaced; "
  "the latest recorded map is republished steadily in frame provided_map. Both nodes publish nothing after a shutdown and end soon.",
  ["histories", "schedules", "fault_sequences"],
  "all transform and map streams, rates, frame names with or without leading slash, message faults and shutdown times",
  "No test runs these nodes.",
  ["src/ros/path_publisher.cpp", "src/ros/wg_pr2_bag_adapter.cpp"],
  "relay ledger; freshness; progress after faults stop")

p("C90", "Geometry formulas are correct",
  "Segment, rectangle and ray predicates, and rectangle overlap equal their mathematical definitions up to rounding.",
  ["inputs"], "all segments, rectangles and beams",
  "Unit tests sample a few dozen configurations.",
  ["src/core/geometry_primitives.h", "src/core/geometry_discrete_primitives.h", "src/core/maps/grid_rasterization.h"],
  "pure functions")
p("C91", "Synthetic scans and map primitives match their specification",
  "Generated laser scans report the distance to the first occupied cell on each bearing and text rasters are stamped at the requested place and scale.",
  ["inputs"], "all rasters, poses and scanner parameters",
  "Unit tests sample a few rasters and poses.",
  ["src/utils/data_generation/laser_scan_generator.h", "src/utils/data_generation/grid_map_patcher.h", "src/utils/data_generation/map_primitives.h"],
  "pure functions")
p("C92", "Configuration keys select the documented components and parameters",
  "Each documented configuration key changes exactly the parameter it names, and an unknown component name is refused at start-up.",
  ["configurations"], "all configurations",
  "Not tested.",
  ["src/utils/init_scan_matching.h", "src/utils/init_occupancy_mapping.h", "src/slams/gmapping/init_gmapping.h", "src/ros/launch_properties_provider.h"],
  "pure mapping from a string map to constructor arguments")
p("C93", "Pose-graph and VinyX SLAM build and work",
  "The pose graph and VinyX front ends build and deliver a consistent map and pose like the other front ends.",
  ["configurations"], "both front ends", "They are excluded from the build.",
  ["src/slams/graph", "src/slams/vinyx"], "dead code: not part of any build target, includes missing headers")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
