#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    if hook is not None: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "The estimate is a function of the measurements, not of how they were delivered",
     "For fixed sensor streams, the sequence of estimates (time, pose, velocity, biases, calibration, covariance) the single-threaded estimator produces is bit-for-bit the same for every delivery schedule that keeps each sensor's own order and hands over an image only once inertial data covers it. It does not depend on how far inertial data runs ahead of the images, on how often predictions, visualisation data or other read-only queries are asked for in between, on wall-clock time, or on other estimator instances living in the same process. Repeating a run with the same inputs repeats the output exactly.",
     ["schedules", "inputs", "configurations"],
     "Every interleaving of inertial and image deliveries that respects per-sensor order and coverage, every pattern of interposed read-only queries, every clock behaviour, and any second estimator interleaved with the first, over randomised trajectories and configurations.",
     "The tests replay one fixed simulated sequence in one delivery order and only look at the exit code; they never compare two schedules of the same data.",
     ["ov_msckf/src/core/VioManager.cpp", "ov_msckf/src/core/VioManagerHelper.cpp", "ov_msckf/src/state/Propagator.cpp", "ov_msckf/src/update/UpdaterMSCKF.cpp", "ov_msckf/src/update/UpdaterSLAM.cpp", "ov_core/src/feat/FeatureDatabase.cpp"],
     [("per-sensor buffering and interval selection", "Propagator::feed_imu / select_imu_readings"), ("per-image pipeline", "VioManager::track_image_and_update / do_feature_propagate_update")],
     [("inertial buffer", "readings kept for propagation; pruned by time"), ("feature store", "all tracked observations not yet consumed")],
     ["State estimate and full covariance after each image"], False)

prop("C02", "The filter state stays structurally sound under any fault sequence",
     "After every processed measurement the state and its covariance are finite; the covariance is symmetric and positive semi-definite, its size is the sum of the variables' sizes, and the variables occupy disjoint contiguous ranges that tile it exactly; rotations are unit quaternions. State time never goes backwards; the number of pose clones never exceeds the configured window (plus the current one), every clone's time is distinct and not newer than the state, the number of long-term landmarks never exceeds the configured bound, and every anchored landmark's anchor frame and camera still exist. This holds whatever messages are lost, duplicated, delayed or corrupted by outliers on the way in.",
     ["fault_sequences", "histories", "configurations", "inputs"],
     "Every history of inertial and image deliveries under message loss, bursts, duplication, delay, blackouts, outlier observations and clock offsets; every configuration of window size, landmark budgets, representations, calibration flags and integration methods.",
     "The tests run three fixed-seed, fault-free sequences and assert nothing about the state between updates.",
     ["ov_msckf/src/state/State.cpp", "ov_msckf/src/state/StateHelper.cpp", "ov_msckf/src/core/VioManager.cpp", "ov_msckf/src/update/UpdaterSLAM.cpp", "ov_msckf/src/update/UpdaterMSCKF.cpp", "ov_msckf/src/state/Propagator.cpp"],
     [("clone/marginalise/initialise bookkeeping", "StateHelper::{clone,marginalize,initialize,augment_clone}"), ("window and landmark budget", "VioManager::do_feature_propagate_update, StateHelper::marginalize_old_clone/marginalize_slam"), ("anchor hand-over before a clone leaves", "UpdaterSLAM::change_anchors")],
     [("state variables", "IMU, calibration, pose clones, landmarks, each with an index range into the covariance")],
     ["state object after each call"], False)

prop("C03", "Late and duplicate images never disturb the estimate",
     "An image (or set of observations) whose time is older than the current state is ignored: delivering it leaves estimate, covariance, state time, pose window and landmarks bit-for-bit unchanged. A late image that carries no observations, and inertial readings that arrive again or are older than everything still needed, do not change any later estimate either. The system keeps running, and the next newer image is processed at its own time.",
     ["fault_sequences", "histories", "inputs"],
     "Every pattern of late, stale and duplicated image messages and of duplicated inertial messages inserted at any point of a run.",
     "No test delivers a message late or twice.",
     ["ov_msckf/src/core/VioManager.cpp", "ov_msckf/src/state/Propagator.cpp", "ov_core/src/feat/FeatureDatabase.cpp"],
     [("late-image rejection", "VioManager::do_feature_propagate_update"), ("removal of zero-length intervals", "Propagator::select_imu_readings")],
     None, ["state object before and after the late delivery"], False)

prop("C04", "Propagation covers exactly the requested interval with right mean and covariance",
     "Moving the filter to an image time consumes exactly the inertial data between the previous and the new time (both on the inertial clock, including the camera-to-inertial clock offset), interpolating at both ends, with no gap, overlap or reuse, regardless of rate, jitter, dropped readings or how readings straddle the interval ends. The resulting orientation, position, velocity and biases agree with an independent integration of those readings, and the covariance and all cross-covariances agree with independently linearised error dynamics plus the configured sensor noise. The new pose clone equals the propagated pose in mean and covariance.",
     ["inputs", "histories", "fault_sequences", "configurations"],
     "Every set of reading times and values (any rate, jitter, drops, duplicates, readings exactly on the interval ends), every clock offset, initial state, covariance and integration method.",
     "The tests propagate three simulated trajectories at one regular rate and check no value against an independent integrator.",
     ["ov_msckf/src/state/Propagator.cpp", "ov_msckf/src/state/Propagator.h", "ov_msckf/src/state/StateHelper.cpp"],
     [("interval selection and interpolation", "Propagator::select_imu_readings / interpolate_data"), ("mean and error-state transition", "Propagator::predict_and_compute, predict_mean_*, compute_F_and_G_*"), ("covariance propagation", "StateHelper::EKFPropagation, augment_clone")],
     None, ["state mean and full covariance after propagate"], False)

prop("C05", "Inertial-rate prediction is side-effect free, history independent and accurate",
     "Asking for an inertial-rate pose prediction (for a time on the inertial clock between the current estimate and the newest reading) never changes the filter: all later estimates are the same as if it had not been asked. The answer agrees, in mean and covariance (the velocity and its covariance expressed in the sensor frame), with integrating the inertial data from the current estimate to the requested time, and depends, up to integration-step accuracy, not on which or how many predictions were requested before, nor on predictions requested before the last filter update. A request for a time before the current estimate, or one that the inertial data does not allow, is refused and leaves later requests correct.",
     ["histories", "inputs", "configurations"],
     "Every sequence of predictions at any times interleaved with updates, zero-velocity updates and inertial deliveries, for any clock offset.",
     "No test asks for a prediction.",
     ["ov_msckf/src/state/Propagator.cpp", "ov_msckf/src/core/VioManager.cpp"],
     [("cached prediction and its invalidation", "Propagator::fast_state_propagate / invalidate_cache")],
     [("prediction cache", "last predicted time, mean and covariance; must be dropped when the filter state changes")],
     ["predicted state and covariance"], False)

prop("C06", "State-vector bookkeeping refines a plain Gaussian model",
     "Every sequence of cloning, marginalising, adding, delayed-initialising, propagating and updating state variables gives the same mean and joint covariance over the surviving variables as the same operations on a plain dense Gaussian keyed by variable. Unrelated variables and their correlations are untouched, results do not depend on the order in which variables were added or laid out in memory, and querying any subset of variables returns exactly the corresponding blocks.",
     ["histories", "inputs"],
     "Every operation sequence over poses, quaternions, vectors and landmarks, every order of involved variables, every measurement size including rank-deficient and redundant ones.",
     "No unit test exercises these operations; the simulation tests use them only in one fixed pattern and check no covariance.",
     ["ov_msckf/src/state/StateHelper.cpp", "ov_msckf/src/state/StateHelper.h", "ov_core/src/types/PoseJPL.h", "ov_core/src/types/IMU.h", "ov_core/src/types/Landmark.h"],
     [("index and covariance bookkeeping", "StateHelper::{EKFPropagation,EKFUpdate,set_initial_covariance,get_marginal_covariance,get_full_covariance,marginalize,clone,initialize,initialize_invertible,augment_clone}")],
     None, ["full covariance, marginal covariances, variable values"], False)

prop("C07", "The feature store is linearizable under concurrent use",
     "With tracker threads adding observations while the estimator queries, copies, prunes and removes features, every operation behaves as if executed at one instant between its call and return: no observation or feature is lost, duplicated, torn or resurrected, an id always denotes one feature, and each observation keeps the camera, time and pixel it was recorded with. Query results contain exactly the features that satisfy the query at that instant, and removal or pruning by time removes exactly what it says. No interleaving crashes, deadlocks or accesses freed memory.",
     ["schedules", "histories"],
     "Every interleaving, at the granularity of individual memory accesses and lock operations, of concurrent inserting, querying, copying, appending and pruning threads.",
     "No test runs two threads against the feature store.",
     ["ov_core/src/feat/FeatureDatabase.cpp", "ov_core/src/feat/FeatureDatabase.h", "ov_core/src/feat/Feature.cpp"],
     [("lock per operation", "FeatureDatabase::mtx"), ("time queries and pruning", "FeatureDatabase::{features_not_containing_newer,features_containing_older,features_containing,cleanup,cleanup_measurements,append_new_measurements}, Feature::clean_*")],
     [("id to feature map", "shared feature objects with per-camera observation lists")],
     ["return values and the final content of the store"], False)

prop("C08", "Concurrent sensor callbacks, updates and publishing equal a serial run",
     "With inertial callbacks, image callbacks, background processing and publishing running on their own threads, in any interleaving the system does not crash, deadlock, read freed or half-written data, or race on its shared buffers, and every image is processed exactly once or dropped by a stated rule. The estimates produced equal those of a serial execution of the same inputs in the order in which the images were processed. Inertial-rate predictions published meanwhile are always taken from one consistent filter state.",
     ["schedules"],
     "Every thread interleaving of the sensor callbacks, the image-processing thread, initialisation thread and inertial-rate publication, at memory-access granularity.",
     "All tests are single threaded: the multi-threaded subscriber path is never executed by them.",
     ["ov_msckf/src/ros/ROS1Visualizer.cpp", "ov_msckf/src/core/VioManager.cpp", "ov_msckf/src/core/VioManagerHelper.cpp", "ov_msckf/src/state/Propagator.cpp", "ov_msckf/src/state/Propagator.h"],
     [("image queue thread", "ROS1Visualizer::callback_inertial"), ("inertial buffer lock", "Propagator::imu_data_mtx"), ("prediction cache handshake", "Propagator::cache_imu_valid")],
     None, ["estimates, predictions and race reports of the simulated schedule"], False)

prop("C09", "Initialisation is sound whatever the data and schedule",
     "The filter only starts from a moment at which the configured conditions hold, and the state it starts from is physically right: gravity is aligned with the vertical, a stationary start has zero velocity and the measured biases, a moving start has the true velocity, tilt and scale up to noise, and the starting time is the time of actual data. Running initialisation in the background gives an estimator that starts from a state a synchronous attempt on the same data could have produced; failed attempts change nothing, leave the system able to try again, and once faults stop and the data allow it the system starts within a bounded time.",
     ["schedules", "inputs", "fault_sequences", "configurations"],
     "Every interleaving of the background attempt with sensor deliveries, every still/jerk/moving start profile, inertial and image loss during the attempt, and option settings.",
     "The initialisation test uses one recorded simulation synchronously; the asynchronous path, failures and retries are not exercised.",
     ["ov_init/src/init/InertialInitializer.cpp", "ov_init/src/static/StaticInitializer.cpp", "ov_init/src/dynamic/DynamicInitializer.cpp", "ov_msckf/src/core/VioManagerHelper.cpp"],
     [("choice of static or dynamic start", "InertialInitializer::initialize"), ("background attempt", "VioManager::try_to_initialize")],
     None, ["first estimate, its time and covariance"], False)

prop("C10", "Zero-velocity handling holds the pose when still and is inert when moving",
     "While the platform is stationary and zero-velocity handling is enabled, once an image has been handled as standstill every further still image with tracks is too: state time follows it, no pose is added, and the estimate changes by exactly the information that over the inertial data since the last image the rotation was zero and gravity the only force, so that position, velocity and orientation do not drift however long the stop lasts and whichever messages are lost. While the platform moves, enabling zero-velocity handling makes no difference to any estimate: a rejected attempt leaves mean and covariance untouched. Leaving and re-entering standstill any number of times resumes normal estimation with the inertial data on both sides used exactly once.",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "Every sequence of stops and motions, of any length, with inertial and image loss and any noise level, disparity threshold and clock offset.",
     "The fixed simulation tests contain no stop and never enable zero-velocity updates.",
     ["ov_msckf/src/update/UpdaterZeroVelocity.cpp", "ov_msckf/src/core/VioManager.cpp"],
     [("detection and update", "UpdaterZeroVelocity::try_update"), ("skip of normal processing", "VioManager::track_image_and_update")],
     None, ["estimates with and without zero-velocity handling"], False)

prop("C11", "Errors stay bounded and consistent, and recover after faults and outliers",
     "With sensor errors within their configured statistics, and motion that makes the states observable, the estimation error stays bounded and is, over ensembles of runs, consistent with the reported covariance, for every landmark representation, integration method and camera count. A burst of lost images, lost inertial readings (short gaps), or gross outlier observations is survived: outliers are rejected by the innovation gate rather than pulling the estimate, and once the faults stop the error is again consistent within a bounded number of images. Calibration being estimated online converges towards the truth and never away from it beyond its own uncertainty.",
     ["fault_sequences", "inputs", "configurations"],
     "Every trajectory, configuration and sequence of drops, blackouts and outlier bursts.",
     "The simulation tests check no error and inject no fault.",
     ["ov_msckf/src/update/UpdaterMSCKF.cpp", "ov_msckf/src/update/UpdaterSLAM.cpp", "ov_msckf/src/update/UpdaterHelper.cpp", "ov_msckf/src/state/StateHelper.cpp", "ov_core/src/feat/FeatureInitializer.cpp"],
     [("innovation gating", "UpdaterMSCKF::update, UpdaterSLAM::update / delayed_init, StateHelper::initialize"), ("measurement linearisation and nullspace projection", "UpdaterHelper")],
     None, ["estimate against the simulated truth"], False)

prop("C12", "Tracks name one image patch, stay inside the image and ignore scheduling",
     "Within one tracker, a feature id is never given to two different tracks, at most one observation per id, camera and time is recorded, and every recorded observation lies inside its image and outside the mask that was supplied with it. What the tracker reports as its last observations is exactly what it recorded in the feature store for that time, and undistorted coordinates always correspond to the raw pixel and camera. Results do not depend on how parallel loops over cameras and image cells are scheduled, and a blank, repeated, saturated or missing image loses tracks but never corrupts them.",
     ["schedules", "inputs", "fault_sequences"],
     "Every scheduling of the parallel tracking loops, every image sequence including blank, noisy, masked, shifted and repeated frames, one or more cameras, mono or stereo.",
     "The tracking programs need a real video and are not part of the test suite.",
     ["ov_core/src/track/TrackKLT.cpp", "ov_core/src/track/TrackBase.cpp", "ov_core/src/track/TrackSIM.cpp", "ov_core/src/track/TrackDescriptor.cpp", "ov_core/src/track/Grider_FAST.h", "ov_core/src/track/Grider_GRID.h"],
     [("parallel per-camera loops", "TrackKLT::feed_new_camera"), ("id allocation", "TrackBase::currid"), ("per-camera locks", "TrackBase::mtx_feeds / mtx_last_vars")],
     None, ["feature store and last observations after each frame"], False)

prop("C13", "The front end hands every image over once, in time order, covered by IMU data",
     "Whatever order, delay, loss and burstiness the image and inertial messages arrive with, the front end passes each accepted image to the estimator exactly once, in non-decreasing time order, with its own pixels and time stamp, and only when an inertial reading newer than the image's time on the inertial clock has been passed on before. Images closer than the configured rate limit to the last accepted one of the same camera are dropped, all others are eventually handed over once the needed inertial data arrives. Inertial messages are passed on with their own values, in arrival order.",
     ["schedules", "fault_sequences", "histories"],
     "Every arrival order across cameras and inertial sensor, delays, drops, bursts, clock offset, camera count and threading mode.",
     "The ROS front end is not built by the tests at all.",
     ["ov_msckf/src/ros/ROS1Visualizer.cpp", "ov_msckf/src/ros/ROS1Visualizer.h"],
     [("queue ordered by time, released by inertial time", "ROS1Visualizer::callback_inertial / callback_monocular / callback_stereo")],
     [("image queue", "images waiting for inertial data")],
     ["sequence of calls into the estimator and published outputs"], False)

prop("C14", "Output files survive crashes and full disks as a readable prefix",
     "Every record written to a trajectory, state or timing file is a true rendering of the estimate at that time, complete on one line, in time order and with one record per update. If the process dies at any instant, or the disk fills up or writes fall short, what is on disk is a prefix of the records (at most the last line torn), everything reported as written earlier is still there, and the estimator itself carries on with unchanged results. The files load back, with the repository's own loaders, to the values that were written.",
     ["crash_points", "fault_sequences", "histories"],
     "Every crash instant between and inside write calls, every short or failing write, full disk from any byte on, and every sequence of updates.",
     "No test reads the files that the programs write, and none injects an I/O fault.",
     ["ov_msckf/src/core/VioManager.cpp", "ov_msckf/src/ros/ROSVisualizerHelper.cpp", "ov_eval/src/utils/Recorder.h", "ov_eval/src/utils/Loader.cpp"],
     [("one flushed line per record", "VioManager timing stream, Recorder::write, ROSVisualizerHelper::sim_save_total_state_to_file")],
     None, ["bytes on the simulated disk, and what the loaders read from them"], False)

prop("C15", "Recorded trajectories load completely and exactly, or fail loudly",
     "Loading a recorded trajectory, ground-truth, simulation-state or timing file returns every record in the file, once, in order, with its own numeric values, whatever the chunks in which the operating system returns the bytes, and comment or header lines are skipped. Records are never invented, merged or shifted between columns, and a file that is missing or has no usable record is reported rather than silently treated as data. A file cut off at a record boundary loads as exactly the records before the cut.",
     ["fault_sequences", "inputs", "crash_points"],
     "Every file content in the documented formats, every cut at a record boundary, short and interrupted reads.",
     "No test loads a file other than the fixed simulation trajectory.",
     ["ov_eval/src/utils/Loader.cpp", "ov_core/src/utils/dataset_reader.h"],
     [("line parsers", "Loader::{load_data,load_data_csv,load_simulation,load_timing_flamegraph,load_timing_percent}, DatasetReader")],
     None, ["returned vectors"], False)

prop("C16", "Simulated sensor streams are deterministic, time ordered and faithful",
     "For one configuration and seed the simulated inertial and image streams are identical however and in whatever order they are polled, and repeat exactly in a new process; different seeds give different noise. Time stamps increase strictly at the configured rates, noise-free inertial data integrates along the simulated trajectory, and every reported observation is the projection of its landmark into that camera at that time on the camera's own clock, inside the image. A landmark keeps one id.",
     ["schedules", "inputs", "configurations"],
     "Every polling order of the two streams, seed, rate, camera count, clock offset and noise setting.",
     "The simulation tests poll in one order and check only that the run ends.",
     ["ov_msckf/src/sim/Simulator.cpp", "ov_core/src/sim/BsplineSE3.cpp", "ov_init/src/sim/SimulatorInit.cpp"],
     [("separate generators per purpose", "Simulator::get_next_imu / get_next_cam")],
     None, ["the two polled streams"], False)

prop("C17", "Re-anchoring or re-parameterising a landmark does not move it",
     "When the frame that a long-term landmark is expressed in leaves the window, moving it to another frame leaves its global position, and its joint uncertainty with the rest of the state to first order, unchanged, for every representation. All representations of one landmark convert to the same point and back, and the landmark stays bound to the same feature id and camera observations. The landmark only leaves the state when it is lost or marked bad.",
     ["histories", "inputs", "configurations"],
     "Every landmark geometry, representation, anchor pair and camera, and every history of anchor changes inside full runs.",
     "No test checks a landmark across an anchor change.",
     ["ov_msckf/src/update/UpdaterSLAM.cpp", "ov_core/src/types/Landmark.cpp", "ov_msckf/src/update/UpdaterHelper.cpp"],
     [("anchor hand-over", "UpdaterSLAM::change_anchors / perform_anchor_change"), ("representation Jacobians", "UpdaterHelper::get_feature_jacobian_representation")],
     None, ["landmark global position and covariance before and after"], False)

for i, (t, s, files, mech) in enumerate([
    ("Camera models project and undistort consistently",
     "For every supported lens model and calibration, undistorting a distorted point returns the original point over the valid field of view, and the analytic derivatives equal the true derivatives.",
     ["ov_core/src/cam/CamRadtan.h", "ov_core/src/cam/CamEqui.h"], [("projection", "CamRadtan / CamEqui")]),
    ("Rotation and rigid-body algebra satisfies its group laws",
     "Quaternion, rotation and rigid-transform conversions are mutually inverse, composition is associative, and exponential and logarithm maps invert each other for every input including near zero and pi.",
     ["ov_core/src/utils/quat_ops.h"], [("algebra", "quat_ops.h")]),
    ("Trajectory alignment and error metrics match their definitions",
     "Aligning an estimated trajectory that differs from the truth by an allowed transform yields zero error, and absolute, relative and consistency metrics equal their definitions for every pair of trajectories.",
     ["ov_eval/src/alignment/AlignUtils.cpp", "ov_eval/src/alignment/AlignTrajectory.cpp", "ov_eval/src/calc/ResultTrajectory.cpp"], [("alignment", "AlignUtils::align_umeyama")]),
    ("Landmark triangulation returns the geometric point",
     "Given exact observations from known poses with sufficient baseline, linear triangulation and nonlinear refinement return the true point, and report failure for degenerate geometry.",
     ["ov_core/src/feat/FeatureInitializer.cpp"], [("triangulation", "FeatureInitializer")]),
    ("Preintegrated inertial measurements match direct integration",
     "Continuous preintegration of any sequence of inertial readings equals direct integration of the same readings, and its bias Jacobians are the derivatives of the result.",
     ["ov_core/src/cpi/CpiV1.cpp", "ov_core/src/cpi/CpiV2.cpp"], [("preintegration", "CpiV1 / CpiV2")]),
]):
    prop("C%02d" % (18 + i), t, s, ["inputs"], "Every numeric input of the pure function.",
         "Tests sample no inputs of these functions.", files, mech, None, None, False)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
