#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=False):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": files[0]} for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook or None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
S = "serpent/src/"; I = "serpent/include/serpent/"
FE = S + "front_end/frontend.cpp"; OP = S + "back_end/optimisation.cpp"; GM = S + "back_end/graph_manager.cpp"
RG = I + "front_end/lidar/registration-inl.hpp"; MP = I + "mapping/mapping-inl.hpp"; UT = S + "utils/utilities.cpp"
NODES = [S + "nodes/node.cpp", S + "nodes/frontend_node.cpp", S + "nodes/backend_node.cpp"]
NOTEST = "None of the ROS-facing code is compiled or run by the 46 baseline tests, which only sample pure helper functions; "

p("C01", "Every accepted scan yields one optimised state; the estimator never wedges",
  "With any subset of sensor modalities enabled and any number of callback threads from the shipped default upwards, every LiDAR scan "
  "that the estimator accepts leads, once its successor scan and the surrounding IMU data (and stereo data, if enabled) have arrived, to exactly one "
  "optimised odometry message for that scan's state within a bounded time after delays and stalls cease. No finite delay, reordering between "
  "different topics, slow callback or thread schedule may leave the estimator permanently waiting, and none may crash it.",
  ["schedules", "fault_sequences", "configurations"],
  "All interleavings of the callback threads, all finite delivery delays and compute stalls, all combinations of enabled factors, single-node and split front end/back end deployments.",
  NOTEST + "progress depends on up to five callbacks that block spinner threads until other callbacks run.",
  [FE, OP, RG, UT] + NODES, ["protected_sleep polling waits", "AsyncSpinner thread pool", "named-key bookkeeping deciding when to optimise"],
  [("initialised / previous_state_time", "which state the front end is building"), ("named keys", "how far each modality has been added to the graph")],
  ["optimisation/odometry", "frontend/imu_s2s"])
p("C02", "All estimator outputs describe one consistent, strictly increasing state chain",
  "Optimised odometry, optimised IMU biases, the output path and the path changes are published once per state with identical stamps, in strictly increasing "
  "state-time order and with no state skipped or repeated. The path published for a state contains exactly one pose per state so far, in order, with "
  "the stamps those states were created with, and its last pose equals the optimised odometry pose published with it.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "Every run history under every interleaving of IMU, registration, stereo and barometer callbacks.",
  NOTEST + "the chain is built by concurrent callbacks sharing one graph.",
  [OP, GM, FE], ["graph mutex", "GraphManager timestamps and keys", "convert_to_path"],
  [("GraphManager key/timestamp maps", "state index to state time")], ["optimisation/odometry", "optimisation/imu_biases", "output/path", "optimisation/path_changes"])
p("C03", "IMU data between states is conserved: windows abut, nothing lost or repeated",
  "The IMU windows handed from the front end to the back end abut exactly (each starts at the previous state time and ends at the new state time) and each contains, unmodified and in order, "
  "every received IMU measurement stamped strictly between the two state times plus the most recent one at or before the start. This holds however "
  "late or in whatever bursts IMU data arrives relative to scans and images, so the relative motion predicted over a window equals integration of the full IMU stream over that interval.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "All arrival orders and delays of IMU messages relative to scans and stereo frames, all stamp coincidences.",
  NOTEST + "the window content depends on when IMU callbacks run relative to the scan callback.",
  [FE, OP, UT], ["IMU buffer trimming", "wait for IMU data past the state time", "integrate_imu"],
  [("imu_buffer", "IMU measurements not yet older than the previous window")], ["frontend/imu_s2s", "optimisation/imu_transform", "input/imu"])
p("C04", "IMU-rate odometry always extrapolates the newest optimised state",
  "Every IMU-rate odometry message carries the stamp of the IMU message that triggered it and equals the state obtained by integrating, from the newest optimised state, velocity and biases the front end has "
  "adopted, exactly the received IMU measurements from that state's time up to that stamp, each once. "
  "After the first optimised state is adopted, one such message is produced per IMU message, whatever the interleaving with optimisation results; reported body angular velocity is bias-corrected and expressed in the body frame.",
  ["schedules", "histories", "inputs"],
  "All interleavings of IMU and optimisation-result callbacks, all backlogs of IMU data at the time of the switch.",
  NOTEST + "the re-integration on a new optimised state races with incoming IMU messages.",
  [FE], ["preintegration mutex", "re-integration of buffered IMU"],
  [("preintegrated_imu, last_preint_imu_timestamp", "running extrapolation")], ["output/odometry", "input/imu", "optimisation/odometry", "optimisation/imu_biases"])
p("C05", "Each scan is deskewed with its own motion and stamped with its state time",
  "Each accepted scan (except the newest) is emitted exactly once, stamped with its state time, with every point moved by the "
  "motion of the LiDAR between sweep start and that point's capture time as integrated from the IMU stream with the biases and state optimised for the previous state. The result does not depend on thread timing, "
  "on how late IMU data arrives, or on where the LiDAR is mounted relative to the body.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "All schedules of optimisation results versus scan processing, all IMU arrival delays, all extrinsics and state-time choices.",
  NOTEST + "the biases and state used depend on which optimisation results arrived first.",
  [FE, UT, "pointcloud_tools/src/pclpointcloud2_utilities.cpp", "eigen_ext/include/eigen_ext/geometry.hpp"],
  ["wait for previous state's biases and IMU past sweep end", "deskew in LiDAR frame"],
  [("imu_biases, world_state", "state used for the sweep integration")], ["frontend/deskewed_pointcloud"])
p("C06", "Each measurement constrains the trajectory exactly once, at the right states",
  "At every published state the optimised trajectory, velocities and biases agree, to the solver's tolerance, with a one-shot least-squares solution over exactly the initial prior (the configured position and velocity, and the attitude the IMU reports, at the first state's time), one inertial constraint per consecutive state pair, one "
  "registration constraint per consecutive state pair, one constraint per stereo observation at its own state and the barometer constraints received so far (for the enabled modalities). The result is independent of the order in "
  "which the modalities' measurements for a state arrive, and a state is never optimised before all enabled required modalities have contributed (or, for stereo, been skipped).",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "All arrival orders of IMU windows, registrations, stereo features and barometer readings for every state, all factor subsets.",
  NOTEST + "only hand-picked factor-graph fragments can be written as unit tests; arrival orders are decided by the thread schedule.",
  [OP, GM, I + "back_end/graph_manager-inl.hpp", I + "back_end/graph_manager.hpp"], ["named keys and minimum key", "factor/value bookkeeping between optimisations", "incremental optimisation"],
  [("new factors/values since last optimisation", "what the next update will add")], ["output/path", "optimisation/odometry", "optimisation/imu_biases"])
p("C07", "Each scan is registered once, to its predecessor and its predecessor's map",
  "Exactly one relative-motion measurement is produced for every consecutive pair of processed scans, stamped with the later scan's time, obtained by aligning the later scan to the earlier one and, when "
  "scan-to-map refinement is on, to the local map built as of the earlier scan. Pairings are never shifted, repeated or skipped, whatever the relative timing of scans, inertial predictions and maps.",
  ["schedules", "histories", "configurations"],
  "All interleavings of scan, inertial-prediction and map deliveries.",
  NOTEST + "pairing is done by first-in first-out queues filled by different threads.",
  [RG, I + "front_end/lidar/registration_methods-inl.hpp"], ["time-synchronised inputs", "FIFO pairing of scan-to-scan results with maps"],
  [("s2m_pointclouds / s2s_registrations", "queues pairing scans with maps")], ["registration/transform", "mapping/local_map", "normal_estimation/pointcloud"])
p("C08", "The map always reflects the latest optimised trajectory",
  "After every map update, and in every answer to a map or pose-graph request made at any moment, each key scan sits at the most recently optimised pose of its state, and key scans are exactly the first scan plus those that "
  "moved farther or turned more than the thresholds from the previous key scan when added. Each local map is the union of the required number of nearest (or most recent) key scans expressed in the current scan's LiDAR frame and carries "
  "that scan's stamp; a requested map or pose graph is never a mixture of two trajectory estimates.",
  ["schedules", "histories", "configurations", "inputs"],
  "All interleavings of map updates and service requests, both local-map selection methods, all trajectories.",
  NOTEST + "requests interleave with map updates and trajectory corrections.",
  [MP, I + "mapping/mapping.hpp", I + "front_end/lidar/transform_pointcloud-inl.hpp"], ["map mutex", "pose update of key scans", "nearest-frame index"],
  [("map, pose_cloud and index maps", "key scans and their search structure")], ["mapping/local_map", "output/global_map", "output/pose_graph"])
p("C09", "Each state gets one barometer reading, interpolated at its state time",
  "If the barometer is enabled, every state receives at most one pressure value, in state order and stamped with the state time, equal to the linear interpolation of the two readings that bracket that time (or the first reading ever "
  "received if the state precedes it); once a reading newer than a state has arrived and readings keep coming, every state gets its value. A late, slow, bursty, duplicated-rate or missing barometer never delays, crashes or alters the processing of the other modalities.",
  ["schedules", "inputs", "fault_sequences"],
  "All arrival patterns of barometer readings relative to state creation and optimisation, including none at all.",
  NOTEST + "the matching of readings to states depends on arrival order across threads.",
  [FE, UT, OP], ["barometer and state-time buffers", "named key with lower priority"],
  [("barometer_buffer / barometer_timestamp_buffer", "pending readings and states")], ["frontend/barometer", "optimisation/odometry"])
p("C10", "Stereo frames choose state times and are attributed to the right state",
  "With stereo enabled, the state for each scan is placed at the first stereo frame stamped at or after the scan's start and before the next scan's start, otherwise at the scan's start; no frame is used for two states. Stereo observations constrain "
  "only the state with their own stamp, states without observations are skipped rather than awaited forever, and observations of other frames never alter the trajectory, whatever frames are late, dropped or slow to process.",
  ["schedules", "inputs", "fault_sequences", "histories"],
  "All arrival orders, delays and losses of stereo frames relative to scans, in both republishing modes.",
  NOTEST + "frame selection and association happen in three concurrently running callbacks.",
  [FE, OP, GM, S + "front_end/stereo/stereo_factor_finder.cpp"], ["stereo buffer trimming and wait", "future-feature skipping loop"],
  [("stereo_buffer", "frames not yet claimed"), ("stereo named key", "last state with stereo decided")], ["frontend/imu_s2s", "stereo/left/image", "stereo/features", "output/path"])
p("C11", "A shutdown request at any instant ends every node promptly and cleanly",
  "If shutdown is requested at any instant, including while callbacks are waiting for other data, every node's main function returns within a bounded time without deadlock, crash or exception, and no further state is published after it returns.",
  ["schedules", "crash_points", "configurations"],
  "Every instant of every run as shutdown point, all schedules, single-node and split deployments.",
  NOTEST + "only a shutdown landing inside a blocked callback exercises the hand-over of held locks.",
  [UT, FE, OP, RG, S + "front_end/stereo/stereo_factor_finder.cpp"] + NODES, ["ros::ok checks in waits", "mutex release on early return"],
  [("mutexes held across waits", "must be released before early return")], ["process exit"])
p("C12", "Concurrent callbacks never race on shared estimator state",
  "No two callbacks running on different threads access the same estimator, map or buffer state without synchronisation (at least one access being a write), in any schedule and configuration.",
  ["schedules", "configurations"],
  "All interleavings of callbacks permitted by the multi-threaded spinner, including services and late or bursty inputs.",
  NOTEST + "data races need overlapping callbacks and are invisible to single-threaded tests.",
  [FE, OP, RG, MP, S + "front_end/stereo/stereo_factor_finder.cpp"], ["component mutexes", "hand-over of messages through queues"],
  [("all callback-shared members", "protected by component mutexes")], ["memory accesses of callbacks"])
p("C13", "Dropped, late or bursty sensor inputs never crash or corrupt the estimator",
  "Losing, delaying or bursting any subset of sensor input messages (scans, stereo frames, barometer readings, gaps of IMU data), with input resuming afterwards, never terminates a node, never raises an unhandled error and never corrupts later states: states created "
  "after inputs resume satisfy the same guarantees as in an undisturbed run.",
  ["fault_sequences", "schedules", "inputs"],
  "All finite patterns of input loss, delay and burst on every input topic.",
  NOTEST + "queue overflow and empty-buffer conditions need specific loss patterns.",
  [FE, OP, UT, S + "front_end/lidar/pointcloud_formatter.cpp"], ["input queues", "buffer emptiness assumptions"],
  [("input buffers", "may be empty or stale after loss")], ["process exit", "optimisation/odometry"])
p("C14", "Stereo track identities are unique, persistent and never reused",
  "Over any sequence of stereo frames, each published observation list has distinct track ids, an id that ended is never reused for another point, and an observation continuing an id lies on the same tracked left and right image point as in the frame before it. "
  "A track whose points are found again in both images as a valid stereo pair goes on under its id, and every other track ends. New ids start exactly at those detected points, away from tracked ones, that the configured stereo matcher (cost function, window, cost and row thresholds, and one-way, two-way or ratio rule) pairs across the two images. "
  "Dropped, delayed or featureless frames may end tracks but never merge, swap or resurrect identities, and the published tracker statistics and track points describe the published list.",
  ["histories", "inputs", "fault_sequences", "schedules"],
  "All sequences of stereo frames with arbitrary losses, featureless frames and re-detections.",
  NOTEST + "identity is a property of the whole frame history; tests do not run the tracker at all.",
  [S + "front_end/stereo/stereo_feature_tracker.cpp", S + "front_end/stereo/stereo_factor_finder.cpp", S + "front_end/stereo/stereo_keypoint_matcher.cpp", S + "front_end/stereo/match_filters.cpp", S + "front_end/stereo/stereo_cost_functions.cpp", S + "front_end/stereo/window_functions.cpp"],
  ["track id counter", "bidirectional filtering of tracked points"], [("previous keypoints and ids", "tracks alive in the last frame")], ["stereo/features"])
p("C15", "Reported base_link pose and TF match the optimised state, even if TF fails",
  "For every optimised state the front end adopts, the broadcast map-to-base_link transform and the output pose are stamped with that state and equal the optimised body pose composed with the base_link mounting valid at that time, in map coordinates, when that mounting is "
  "available. If a needed transform lookup fails or is late, only that state's output is omitted; estimation and IMU-rate output continue unaffected.",
  ["fault_sequences", "configurations", "histories", "schedules"],
  "All body-frame layouts (base_link as body, elsewhere in the tree, dynamic), all patterns of lookup failures.",
  NOTEST + "lookup failures and dynamic frames only exist at run time.",
  [FE, "eigen_ros/src/body_frames.cpp", "eigen_ros/src/body_frames_tf.cpp", "eigen_ros/src/pose.cpp"], ["lookup with exception handling", "pose composition"],
  [("body frame tree", "static and dynamic extrinsics")], ["/tf", "output/pose", "output/odometry"])
p("C16", "Stand-alone stream nodes turn every input message into its one correct output",
  "The stand-alone stream tools (IMU frame transform and statistics, odometry to TF, transform combination, IMU integration, camera info and image republishing and splitting, point cloud statistics, body frame broadcasts and lookups) emit, for each input message or synchronised set they accept, exactly one corresponding output with the input's stamp and the "
  "documented content, in input order, regardless of arrival interleaving, bursts and losses on their inputs and restarts of the tool. Every documented parameter value is accepted.",
  ["histories", "inputs", "schedules", "fault_sequences"],
  "All input streams, interleavings of several inputs, losses and bursts.",
  NOTEST + "stream nodes are not built by the tests.",
  ["imu_tools/src/imu_transform.cpp", "navigation_tools/src/odometry_to_tf.cpp", "navigation_tools/src/combine_transforms.cpp", "navigation_tools/src/integrate_imu.cpp",
   "camera_tools/src/publish_info.cpp", "camera_tools/src/change_frame_id.cpp", "camera_tools/src/split_image.cpp", "camera_tools/src/image_operations.cpp", "imu_tools/src/imu_analysis.cpp", "pointcloud_tools/src/pointcloud_analyser.cpp", "eigen_ros/src/body_frames_tf.cpp"],
  ["per-message callbacks", "time synchronisers", "state carried across messages"], None, ["each tool's output topics"])
p("C17", "Point cloud processing keeps every scan's identity and only its own points",
  "Each scan passing through formatting, filtering, direction annotation and normal estimation gives exactly one output per stage with the same stamp, in order, and, apart from scans overtaken in a full queue, none is lost. Every output point derives from points of that same scan: range and box filters keep exactly the "
  "points they should, downsampled points are averages of that scan's points, and added directions, normals and point times are those of the point itself.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "All point clouds (sizes, layouts, NaNs, ranges), filter configurations and schedules of the processing stages.",
  NOTEST + "stages hold filter state across messages and run concurrently on different threads.",
  [S + "front_end/lidar/pointcloud_formatter.cpp", S + "front_end/lidar/pointcloud_filter.cpp", S + "front_end/lidar/pointcloud_add_unit_vectors.cpp",
   I + "front_end/lidar/pointcloud_normal_estimation-inl.hpp", "pointcloud_tools/src/pclpointcloud2_utilities.cpp"],
  ["per-stage subscriber queues", "reused filter objects"], None, ["formatter/formatted_pointcloud", "filter/filtered_pointcloud", "normal_estimation/pointcloud"])
p("C18", "A bounded optimisation window estimates as keeping the whole history would",
  "With old states marginalised out, every published path still contains all states with the stamps and last poses they had, new states keep being optimised without error for any run length, and the newest state's estimate agrees with the one obtained without "
  "marginalisation up to linearisation error.",
  ["histories", "configurations", "schedules"],
  "All window sizes from two states upwards, all factor subsets and run lengths.",
  NOTEST + "marginalisation only matters over long state histories with several interacting modalities.",
  [GM, OP], ["marginalisation of leaf states after optimisation"], [("minimum unmarginalised key", "oldest state still in the optimiser")], ["output/path", "optimisation/odometry"])
p("C19", "Transform, covariance and interpolation algebra is exact",
  "Frame changes, compositions, inverses, relative transforms, covariance transport and interpolation obey their defining algebraic identities for all valid rigid transforms and covariances.",
  ["inputs"], "All valid inputs.", "Tests sample a few transforms.",
  ["eigen_ext/include/eigen_ext/geometry.hpp", "eigen_ext/include/eigen_ext/covariance.hpp"], ["pure functions"])
p("C20", "Registration covariance equals the closed-form estimate for its model",
  "For every pair of matched point clouds, the registration covariance equals the closed-form estimator of the configured error model and point noise model.",
  ["inputs", "configurations"], "All matched point sets and models.", "Tests compare a few random point sets.",
  [I + "front_end/lidar/registration_covariance-inl.hpp"], ["pure functions"])
p("C21", "Published metrics describe one current set of messages",
  "While it runs, the metrics node publishes the complete list of metrics twice a second, and every value in a list is the documented function of messages it had received by then and not yet replaced: rotation and translation variances of one registration, the largest variance and its place of one pose, "
  "the distance and angle between the last two poses of one path, and between one pose and the one received before it; -1 before there are any. No input timing, loss or shutdown makes the node fail.",
  ["histories", "inputs", "schedules", "fault_sequences"],
  "All interleavings of the subscriber threads with the publishing loop, all poses, covariances, losses and delays.",
  NOTEST + "the script is run by no test, and mixtures need a message arriving within a computation.",
  ["serpent/scripts/metrics_node.py"], ["subscriber callbacks and publishing loop on different threads"], [("latest registration, path, pose and previous pose", "replaced as wholes")], ["metrics"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
