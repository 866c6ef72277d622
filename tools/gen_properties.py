#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the committed file is the output of this script).
import json, os
C="msf_core/include/msf_core/"
I=C+"implementation/"
U="msf_updates/include/msf_updates/"
S="msf_updates/src/"
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or ["published topics of the node"]
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

WHY="The one stable test only starts and stops a timer; the EKF nodes are not even compiled by it. "

prop("C01","Final estimate does not depend on the arrival order of sensor data",
 "When a node has received the same IMU stream and the same set of time-stamped measurements, its state estimate and covariance are the same however the measurements were delayed or reordered on the way, as long as each arrives within the retained window and finds IMU-driven states around its time. A measurement that arrives late therefore has exactly the effect it would have had on time: the states and measurements after it are re-applied.",
 ["schedules","inputs"],"All interleavings of measurement arrivals with IMU ticks and with each other (delay, reorder), for every node type.",
 WHY+"Arrival order is a schedule; a fixed-input test covers one of the factorially many orders.",
 [I+"msf_core_inl.h",C+"msf_sortedContainer.h",I+"msf_measurement_inl.h"],
 [("insert late measurement, re-apply all later ones, re-propagate","AddMeasurement in "+I+"msf_core_inl.h"),("time-ordered buffers",C+"msf_sortedContainer.h")],
 [("state buffer / measurement buffer","time-ordered history of states and measurements",C+"msf_core.h")],
 ["msf_core/ext_state","msf_core/pose","msf_core/state_out","msf_core/cov_*"])

prop("C02","Every accepted measurement is fused exactly once",
 "Each measurement a node accepts influences the estimate exactly once: a second delivery of the same message changes nothing, and re-applying history for a late measurement never counts another one twice. Measurements of different sensors are both counted, also when they refer to the same instant; a sensor's second message with the same time stamp counts as a repetition.",
 ["schedules","histories","fault_sequences"],"All duplications, equal stamps, and late arrivals of any measurement relative to any other, on every node.",
 WHY+"Duplicate and same-stamp deliveries only arise from particular fault schedules.",
 [I+"msf_core_inl.h",C+"msf_sortedContainer.h"],
 [("insert into the measurement buffer and apply loop","AddMeasurement in "+I+"msf_core_inl.h"),("insertion by time",C+"msf_sortedContainer.h")],
 [("measurement buffer","all fused measurements, keyed by time",C+"msf_core.h")],
 ["msf_core/pose (value and covariance)","msf_core/state_out"])

prop("C03","Published estimates equal those of a sequential error-state Kalman filter",
 "The state and covariance that a node publishes after each IMU sample and each measurement equal those of the documented error-state Kalman filter run over the same data in time order: strapdown propagation with gravity, bias and noise terms, then a Joseph-form update with the documented model of each sensor and its configured noise. This holds for every node, with the configured noise, scale, offset and fixed-state parameters.",
 ["inputs","histories","configurations"],"All motion histories, sensor rates, noise settings and fixed/free configurations of pose, position, pose+pressure, position+pose and spherical nodes.",
 WHY+"Equality must hold along whole trajectories and for all configurations; no test has an oracle for the estimate.",
 [I+"msf_core_inl.h",I+"calcQCore.h",I+"msf_measurement_inl.h",I+"msf_state_inl.h",U+"pose_sensor_handler/pose_measurement.h",U+"position_sensor_handler/position_measurement.h",U+"pressure_sensor_handler/pressure_measurement.h",U+"spherical_position_sensor/spherical_measurement.h"],
 [("state and covariance propagation","PropagateState / PredictProcessCovariance in "+I+"msf_core_inl.h"),("update",I+"msf_measurement_inl.h"),("measurement models",U)],
 [("p,v,q,b_w,b_a,P","estimate and covariance",C+"msf_state.h")],
 ["msf_core/ext_state","msf_core/odometry","msf_core/state_out","msf_core/cov_core","msf_core/cov_aux","msf_core/cov_core_aux"])

prop("C04","Measurements that run ahead of the IMU are held back and then fused",
 "A measurement stamped later than the newest IMU-driven state is neither lost nor applied early: it is held and takes effect once IMU data has passed its time. When IMU data keeps arriving, every held measurement is fused within a bounded number of IMU samples, several held ones are all fused, and the result equals on-time delivery.",
 ["schedules","fault_sequences"],"All amounts and counts of measurements running ahead of a slow or stalled IMU link, with either internal or external propagation.",
 WHY+"Needs a stalled IMU link relative to a camera or GPS link, a scheduling fault.",
 [I+"msf_core_inl.h"],
 [("queue of future measurements, drained by propagation","HandlePendingMeasurements / AddMeasurement in "+I+"msf_core_inl.h")],
 [("future measurement queue","measurements later than the newest state",C+"msf_core.h")],
 ["msf_core/state_out","msf_core/pose"])

prop("C05","Unusable measurements are rejected without any effect",
 "A measurement that arrives before the filter is initialized or has propagated, that is stamped before the retained history, or whose time no retained state is close to (an IMU outage) is dropped. Dropping it leaves the estimate, its covariance and the fusion of all other measurements exactly as if it had never been received.",
 ["schedules","fault_sequences","histories"],"All too-early, too-old and in-gap measurements, in any order relative to usable ones.",
 WHY+"Rejection paths need long delays, outages or pre-start traffic.",
 [I+"msf_core_inl.h"],
 [("time-range checks before insertion","AddMeasurement in "+I+"msf_core_inl.h"),("closest-state search limit","GetClosestState in "+I+"msf_core_inl.h")],
 None,["msf_core/pose","msf_core/state_out"])

prop("C06","Every published estimate is a valid state with a valid covariance",
 "Every published pose, odometry, external-state and full-state message holds finite numbers and unit quaternions, and every published covariance is symmetric and positive semi-definite with finite entries, as long as the inputs are finite and physically plausible. Message loss, duplication, reordering, delay, outages and parameter changes do not break this.",
 ["schedules","inputs","fault_sequences","configurations"],"All finite plausible inputs under all link faults and reconfigurations, on every node.",
 WHY+"An invariant over all reachable states; no test runs the filter.",
 [I+"msf_core_inl.h",I+"msf_measurement_inl.h",I+"msf_state_inl.h"],
 [("Joseph form and symmetrisation",I+"msf_measurement_inl.h"),("quaternion normalisation",I+"msf_core_inl.h")],
 [("covariance P","error covariance",C+"msf_state.h")],
 ["all msf_core/* outputs and tf"])

prop("C07","Non-finite sensor data does not poison the estimator",
 "A NaN or infinite value in an IMU or measurement message never leads to a correction message with non-finite content being sent to the external propagation, and never crashes the node. If it makes the estimated position non-finite, the filter stops publishing poses until it is initialized again. After re-initialization the node produces the same finite estimates as if the bad data had not occurred.",
 ["inputs","fault_sequences"],"Non-finite values in any field of any input message at any point of any history.",
 WHY+"The bad value has to hit a particular field at a particular point of a running history.",
 [I+"msf_core_inl.h",I+"msf_state_inl.h",C+"msf_sensormanagerROS.h"],
 [("numeric check before sending corrections",C+"msf_sensormanagerROS.h"),("NaN check in propagation, stops estimation","ProcessIMU in "+I+"msf_core_inl.h"),("re-initialization clears all history","Init in "+I+"msf_core_inl.h")],
 None,["msf_core/correction","msf_core/pose"])

prop("C08","IMU time running backwards stops the filter until it is re-initialized",
 "When IMU time jumps back by more than 10 ms after the filter has started, the filter stops: it publishes no further estimate and fuses no measurement until it is initialized again, after which it behaves like a newly started one. IMU samples out of order by less than that do not corrupt the estimate nor move it back in time.",
 ["fault_sequences","schedules"],"All backward clock jumps and small reorderings of IMU samples at any point.",
 WHY+"Needs clock jumps and reordering on the IMU link.",
 [I+"msf_core_inl.h"],
 [("time sanity check on IMU samples","ProcessIMU in "+I+"msf_core_inl.h")],
 [("initialized/prediction flags","whether the filter runs",C+"msf_core.h")],
 ["msf_core/pose","msf_core/state_out"])

prop("C09","Re-initialization behaves like a fresh start",
 "Initializing a running filter discards all earlier states, measurements (also those still held back) and tracking history, so that afterwards it publishes the same estimates as a newly started node that receives the same inputs from there on. Nothing sent before the initialization influences anything published after it.",
 ["histories","crash_points"],"All histories before an initialization, at any point, through any way of initializing (parameter or service).",
 WHY+"Leftover state depends on the whole history before the restart.",
 [I+"msf_core_inl.h",S+"pose_msf/pose_sensormanager.h"],
 [("clearing buffers, queue, tracking and flags","Init in "+I+"msf_core_inl.h"),("state reset from configuration","Init of the sensor managers in "+S)],
 None,["all outputs"])

prop("C10","History is bounded and long delays are safe",
 "A node that runs indefinitely keeps only a bounded time window of states and measurements: as long as IMU data keeps arriving and sensor clocks agree with it, its memory does not grow with uptime, whatever mix of measurements arrives. Discarding history never disturbs the running estimate, never touches data still in use, and never drops data younger than about a minute.",
 ["histories","schedules"],"All run lengths and rates, including measurements delayed near and beyond the window while history is being discarded.",
 WHY+"Needs minutes of simulated flight and measurements delayed by about a minute.",
 [I+"msf_core_inl.h",C+"msf_sortedContainer.h"],
 [("periodic discarding of old states and measurements","CleanUpBuffers and its call in AddMeasurement in "+I+"msf_core_inl.h"),("removal by age",C+"msf_sortedContainer.h")],
 [("buffers","state and measurement history",C+"msf_core.h")],
 ["allocated memory","msf_core/pose"])

prop("C11","A start-up gap between initialization and IMU data is bridged safely",
 "If the first IMU samples after initialization are more than 0.1 s away from the initialization time, the start is moved to the IMU time and the initial estimate is kept, so the gap is not integrated (5 s when the first data comes from an external propagator). Any number of such gaps is survived without a memory error, and the filter then runs as if initialized at the time of the last gap.",
 ["schedules","fault_sequences"],"All offsets, signs and repetitions of gaps before the filter has started predicting.",
 WHY+"Needs particular timing between initialization and the first IMU samples.",
 [I+"msf_core_inl.h",C+"msf_sortedContainer.h"],
 [("re-basing of the first state","ProcessIMU in "+I+"msf_core_inl.h"),("changing the time of a buffered state","UpdateTime in "+C+"msf_sortedContainer.h")],
 None,["msf_core/pose","msf_core/ext_state"])

prop("C12","Accelerometer spikes do not enter the estimate",
 "An IMU sample whose specific force exceeds 50 m/s^2 in magnitude is not integrated: the last accepted acceleration is used instead for that sample. Samples at or below the limit are used as they are, with internal and with external propagation.",
 ["inputs","fault_sequences"],"Spikes of any size, direction, number and position in the IMU stream.",
 WHY+"Spikes are injected sensor faults; no test runs propagation.",
 [I+"msf_core_inl.h"],
 [("spike filter","ProcessIMU / ProcessExternallyPropagatedState in "+I+"msf_core_inl.h")],
 None,["msf_core/ext_state","msf_core/pose"])

prop("C13","Measurements beyond the outlier gate have no effect",
 "With outlier rejection enabled, a measurement whose Mahalanobis distance exceeds the configured threshold changes neither estimate nor covariance; one below the threshold is fused as without gating. With rejection disabled every measurement is fused.",
 ["inputs","configurations","fault_sequences"],"Outliers of any size, count and timing (also late), and any threshold.",
 WHY+"Depends on the running covariance and on injected outliers.",
 [I+"msf_measurement_inl.h",S+"pose_msf/pose_sensormanager.h"],
 [("Mahalanobis gate before the update",I+"msf_measurement_inl.h")],
 None,["msf_core/pose","msf_core/state_out"])

prop("C14","States configured as fixed never move",
 "A calibration, scale or drift state that is configured as fixed keeps its initial value and gets no uncertainty through updates, however many measurements arrive; with fixed biases the IMU biases keep their values. The remaining states are estimated as if the fixed state were known.",
 ["configurations","histories"],"All combinations of fixed flags on all nodes, over all measurement histories.",
 WHY+"Holds for every history and configuration; none is tested.",
 [U+"pose_sensor_handler/pose_measurement.h",U+"position_sensor_handler/position_measurement.h",U+"spherical_position_sensor/spherical_measurement.h",I+"msf_core_inl.h",I+"msf_state_inl.h"],
 [("zeroed Jacobian blocks and cleared cross-covariance",U+"*/*_measurement.h"),("bias correction zeroed","ApplyCorrection in "+I+"msf_core_inl.h")],
 None,["msf_core/state_out","msf_core/cov_aux"])

prop("C15","Sudden attitude jumps of the vision frame do not corrupt drift states",
 "When an update moves the estimated attitude of the vision frame away from its recent median by more than the tracking threshold, the slowly varying states (scale, calibration, frame offsets) keep their values from before that update. Updates within the threshold are applied in full.",
 ["inputs","fault_sequences"],"All sizes, times and repetitions of attitude jumps or losses of tracking in the pose input.",
 WHY+"The check depends on a 30-sample history of estimates.",
 [C+"msf_checkFuzzyTracking.h",I+"msf_core_inl.h"],
 [("median check and restoring of non-propagated states",C+"msf_checkFuzzyTracking.h")],
 [("ring of recent frame attitudes","median filter input",C+"msf_checkFuzzyTracking.h")],
 ["msf_core/state_out"])

prop("C16","Each accepted IMU sample and each update is published once, consistently",
 "Every IMU sample that advances the estimate is published once, stamped with its own time, and each fused measurement once with the time of the newest state. All messages of one publication agree with each other: same position, attitude and covariance entries in pose, odometry, external state, full state, covariance and tf outputs, with velocity and rates expressed as documented.",
 ["schedules","histories","fault_sequences"],"All interleavings of IMU samples, measurements and subscribers.",
 WHY+"Requires comparing all output streams over whole histories.",
 [C+"msf_sensormanagerROS.h",I+"msf_state_inl.h",I+"msf_core_inl.h"],
 [("publishers",C+"msf_sensormanagerROS.h"),("conversion to messages",I+"msf_state_inl.h")],
 None,["all msf_core/* outputs and tf"])

prop("C17","Corrections sent to an external propagator converge it to the estimate",
 "When an external controller propagates the state itself, sends it in and applies the corrections it gets back, its state agrees with the estimator's after every correction and delays, losses and repetitions of messages only delay that. Initialization messages carry the full initial state; during data playback only identity corrections marked as initialization are sent.",
 ["schedules","fault_sequences"],"All delay, loss and duplication schedules on both links between estimator and external propagator.",
 WHY+"A two-party protocol over lossy links; needs a simulated peer.",
 [C+"msf_sensormanagerROS.h",C+"msf_IMUHandler_ROS.h",I+"msf_core_inl.h"],
 [("correction relative to the last external state",C+"msf_sensormanagerROS.h"),("adopting external state","ProcessExternallyPropagatedState in "+I+"msf_core_inl.h")],
 [("last external state","reference of the correction",C+"msf_sensormanagerROS.h")],
 ["msf_core/correction","msf_core/ext_state"])

prop("C18","Configured sensor delay is compensated on every node",
 "With a configured sensor delay d, a measurement stamped t is fused exactly as one stamped t-d with zero delay, on every node and for each of its sensors that has a delay setting. A delay, noise, or fixed-state setting changed at run time takes effect for the measurements received after the change and only for those.",
 ["configurations","schedules"],"All delays and reconfiguration points between any two messages.",
 WHY+"Needs equivalence of two delivery schedules at every reconfiguration point.",
 [S+"pose_msf/pose_sensormanager.h",S+"position_msf/position_sensormanager.h",S+"pose_pressure_msf/pose_pressure_sensormanager.h",S+"position_pose_msf/position_pose_sensormanager.h",S+"spherical_msf/spherical_sensormanager.h",U],
 [("dynamic reconfigure callbacks setting delay and noise",S+"*/*_sensormanager.h"),("subtracting the delay from the stamp",U+"*/implementation/*_sensorhandler.hpp")],
 None,["msf_core/pose","msf_core/state_out"])

prop("C19","Input rate limiting drops only surplus messages and recovers",
 "Pose input is thinned to the configured minimum interval and every other rate-limited input to its fixed ratio: of the messages received, exactly those that respect the limit are fused. A single wrong stamp or a jump of the sensor clock does not make the node ignore a sensor whose later stamps are valid.",
 ["schedules","fault_sequences"],"All stamp sequences, including duplicates, reordering, far-future stamps and clock jumps.",
 WHY+"Needs stamp faults; no test feeds sensor messages.",
 [U+"pose_sensor_handler/implementation/pose_sensorhandler.hpp",U+"position_sensor_handler/implementation/position_sensorhandler.hpp",U+"pressure_sensor_handler/implementation/pressure_sensorhandler.hpp"],
 [("minimum interval and sequence ratio checks",U+"*/implementation/*_sensorhandler.hpp")],
 None,["msf_core/state_out","msf_core/pose"])

prop("C20","Initialization requests start the filter from the latest measurement",
 "An initialization request (parameter or service) starts the filter in the pose implied by the latest measurement, the configured calibration and the requested scale or height, and the service reports success only if it did so. Height requests outside the allowed range or without a usable measured height leave the running filter unchanged.",
 ["histories","inputs","configurations"],"All request values and all points of the history, before and after the first measurement.",
 WHY+"Depends on what has been received before the request; services are not tested.",
 [S+"pose_msf/pose_sensormanager.h",S+"position_msf/position_sensormanager.h",S+"position_pose_msf/position_pose_sensormanager.h",S+"pose_pressure_msf/pose_pressure_sensormanager.h",S+"spherical_msf/spherical_sensormanager.h"],
 [("Init and service callbacks",S+"*/*_sensormanager.h")],
 None,["service responses","msf_core/correction (initialization)","msf_core/pose"])

prop("C21","The estimate converges to the truth once faults stop",
 "On every node, with noise-consistent sensor data of a sufficiently exciting motion, the estimated pose converges to and stays near the true one, within a few multiples of its own reported standard deviation. After any period of message loss, duplication, reordering, delay or outage ends, it does so again within a bounded time.",
 ["schedules","fault_sequences","inputs"],"All bounded fault periods on all links, on all nodes.",
 WHY+"A liveness property over whole flights with faults.",
 [I+"msf_core_inl.h",I+"msf_measurement_inl.h",S],
 [("prediction and update",I+"msf_core_inl.h")],
 None,["msf_core/pose"])

prop("C22","Timing statistics account for exactly the measured intervals",
 "For any sequence of starting, stopping, discarding, nesting and destroying timers, each tag's statistics contain exactly the completed intervals with the time that passed, also when the system clock is stepped meanwhile: count, total, mean, minimum and maximum agree with all samples, variance and rate with the most recent fifty. The printed table shows the same numbers. Handles and tags map to each other consistently and resetting forgets all earlier samples.",
 ["programs","schedules"],"All operation sequences on timers under an arbitrary clock, including jumps of the system clock.",
 WHY+"The stable test makes a few sleeps and asserts nothing.",
 ["msf_timing/include/msf_timing/Timer.h","msf_timing/src/Timer.cc"],
 [("accumulators per tag","msf_timing/src/Timer.cc")],
 [("per-tag accumulators","statistics","msf_timing/src/Timer.cc")],
 ["msf_timing public API"])

prop("C23","Sensor distortion follows its configured random process",
 "The pose distorter changes a pose exactly by a random walk in position, attitude and scale whose increments have the configured mean and standard deviation per unit of time, starting from no distortion. Attitude distortion stays a rotation, and with zero configured noise the distortion is exactly the configured constant rates.",
 ["inputs","schedules"],"All seeds of the random source, call sequences and time steps.",
 WHY+"Depends on a hardware random device; the repository's test only prints.",
 [S+"msf_distort/PoseDistorter.cc",U+"PoseDistorter.h"],
 [("random-walk distortion",S+"msf_distort/PoseDistorter.cc")],
 None,["PoseDistorter public API"])

prop("C24","The relay node forwards exactly the enabled streams unchanged",
 "The message relay republishes, for each enabled stream, every received message once and in order with its content and stamp unchanged, and nothing for a disabled stream. Enabling or disabling a stream at run time takes effect with the next message.",
 ["schedules","configurations"],"All interleavings of messages on all streams with reconfigurations.",
 WHY+"The relay node is not compiled or run by the tests.",
 ["msf_distort/src/msf_distort.cc","msf_distort/cfg/MSF_Distort.cfg"],
 [("gated republishing","msf_distort/src/msf_distort.cc")],
 None,["relay output topics"])

prop("C25","No input sequence causes memory errors, undefined results or termination",
 "Whatever messages arrive in whatever order and with whatever content, including malformed external states, extreme stamps and measurements before initialization, a node does not crash, hang, read invalid memory or publish values that depend on uninitialized data.",
 ["inputs","schedules","fault_sequences"],"All message sequences on all inputs of all nodes, at all points of the node's life.",
 WHY+"Memory errors here need particular orders and timings (late, in-gap, re-init, malformed).",
 [I+"msf_core_inl.h",C+"msf_sortedContainer.h",C+"msf_IMUHandler_ROS.h",U],
 [("bounds of buffers and iterators",C+"msf_sortedContainer.h"),("message conversion",C+"msf_IMUHandler_ROS.h")],
 None,["process status under AddressSanitizer/UBSan","outputs under two heap fill patterns"])

prop("C26","Relative pose measurements depend only on the relative motion",
 "With pose measurements declared relative, each pair of consecutive measurements of a sensor constrains only the motion between them, whatever other sensors report in between: adding a constant vector to all measured positions, or turning all measured attitudes by a constant rotation of the reference frame, leaves the estimates unchanged, and the covariance stays valid. A relative measurement without predecessor since the initialization changes no estimate.",
 ["inputs","schedules","configurations"],"All constant frame offsets and measurement histories with relative fusion.",
 WHY+"An invariance over all offsets and histories.",
 [U+"pose_sensor_handler/pose_measurement.h",I+"msf_core_inl.h",I+"msf_measurement_inl.h",C+"msf_sortedContainer.h"],
 [("stochastic cloning update",I+"msf_measurement_inl.h"),("previous measurement lookup","GetPreviousMeasurement in "+I+"msf_core_inl.h")],
 None,["msf_core/pose"])

prop("C27","GPS coordinates map to a consistent local metric frame",
 "The first GPS fix defines the origin of the local east-north-up frame and every later fix maps to its metric offset from there, so that the mapping is invertible and its distances agree with the ellipsoid. The origin does not change afterwards, whatever the order of later fixes.",
 ["inputs","histories"],"All sequences of fixes with any coordinates.",
 WHY+"GPS handling is not compiled or run by the tests.",
 ["msf_core/src/lib/gps_conversion.cc",C+"gps_conversion.h",U+"position_sensor_handler/implementation/position_sensorhandler.hpp"],
 [("ellipsoid conversion","msf_core/src/lib/gps_conversion.cc"),("reference from the first fix",U+"position_sensor_handler/implementation/position_sensorhandler.hpp")],
 [("reference point","origin of local frame","msf_core/src/lib/gps_conversion.cc")],
 ["msf_core/state_out of the position node"])

prop("C28","Similarity transforms are estimated as the mean of the given pose pairs",
 "From a set of corresponding pose pairs the tool computes the translation, rotation and scale that relate them, together with the covariance of the samples. Data generated from one transform yields that transform, whatever the number and order of the pairs.",
 ["inputs"],"All sets of pose pairs.",
 "The repository's test for it samples one random transform per run and is not in the stable set.",
 ["msf_core/src/similaritytransform.cc",C+"similaritytransform.h"],
 [("mean of pairwise transforms","msf_core/src/similaritytransform.cc")],
 None,["return values"])

prop("C29","State layout and index tables are consistent",
 "For every composition of state variables, the compile-time index of each variable in the state and error vectors is unique, gap-free and in declaration order, and reading or correcting a variable touches exactly its own entries.",
 ["programs"],"All state definitions.",
 "Compile-time metaprogramming; existing tests for it are not in the stable set.",
 [C+"msf_tmp.h",C+"msf_state.h",C+"static_ordering_assertions.h"],
 [("template metaprograms",C+"msf_tmp.h")],
 None,["compile-time constants"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
