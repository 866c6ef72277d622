"""Per check: nodes, builds, budgets and what makes a case non-trivial. Read by check.py and tools/gen_manifest.py."""
ALL = ["pose", "position", "pose_pressure", "position_pose", "spherical"]
POSE = ["pose", "pose_pressure", "position_pose"]
REAL = ["msf_updates/src/*/main.cpp with their sensor managers", "msf_updates sensor handlers and measurements", "msf_core (core, state, sorted containers, IMU handler, ROS sensor manager, checks, outlier rejection)", "msf_timing"]
STUB = ["roscpp, tf, dynamic_reconfigure, message types: in-process stand-ins generated from the repository's .msg/.srv/.cfg files", "clock, sleep, random device, heap contents: provided by the simulator", "sensors, links, external controller: simulated world"]
RULE = "A case is one seed: a random world (motion, calibration, noise, rates, configuration), the message schedule it produces and seeded faults applied to it; it counts as distinct by the hash of its interleaving and as non-trivial when the premise of the property was met and it was judged."
CHECKS = {
 "C01": dict(nodes=ALL, rule="Two deliveries of the same data (on time, and delayed/reordered) are run and compared; at least one measurement has to be late."),
 "C02": dict(nodes=ALL, rule="Runs with and without repeated messages are compared; at least one repeated message is present, or several sensors share a stamp."),
 "C03": dict(nodes=ALL, rule="Every publication of a run under message loss, duplication, lateness, outage, reconfiguration is compared with the reference filter."),
 "C04": dict(nodes=ALL, rule="At least one measurement arrives before the IMU reaches its time; compared with on-time delivery."),
 "C05": dict(nodes=ALL, rule="At least one unusable measurement is injected; compared with the run without it."),
 "C06": dict(nodes=ALL, rule="Every publication of runs with arbitrary message faults is examined: finite, unit quaternions, symmetric positive semidefinite covariance."),
 "C07": dict(nodes=ALL, rule="At least one non-finite number is injected into a message, a parameter or the external state; publications and the behaviour after a new initialization are examined."),
 "C08": dict(nodes=ALL, rule="The IMU stamps jump back by more than the limit; the filter has to stop and to work again after an initialization."),
 "C09": dict(nodes=ALL, rule="A run with a history before the initialization is compared with a fresh process that gets the same initialization."),
 "C10": dict(nodes=ALL, quick_cases=60, rule="Long runs; memory in use is sampled while the history window moves on."),
 "C11": dict(nodes=ALL, rule="A gap in the IMU data after the initialization; compared with the reference filter and with a start at the end of the gap."),
 "C12": dict(nodes=ALL, rule="Acceleration spikes are injected; compared with the run in which the spike is replaced by the previous sample."),
 "C13": dict(nodes=ALL, rule="Outliers are injected with the gate on and off; compared with the run without the outlier."),
 "C14": dict(nodes=ALL, rule="At least one state is configured as fixed; its value and correlations are followed through faults and re-initializations."),
 "C15": dict(nodes=POSE, rule="The vision frame turns; every publication is compared with the reference filter."),
 "C16": dict(nodes=ALL, rule="All publications of a run with faults and changing subscribers: counts, order, stamps, frames and mutual consistency."),
 "C17": dict(nodes=ALL, rule="An external propagator runs in the loop, with lost, late and stale messages; its state is compared with the filter's, the corrections with the difference they must express."),
 "C18": dict(nodes=ALL, rule="A delay parameter against equally shifted stamps, and parameters changed in mid-run; compared run against run and with the reference filter."),
 "C19": dict(nodes=ALL, rule="A throttled run against the same data without the surplus and without the limit; and recovery after wrong sensor stamps and clock jumps."),
 "C20": dict(nodes=ALL, rule="Requests for initialization, valid and refused, at arbitrary points; the state after them and the service's answers are examined."),
 "C21": dict(nodes=ALL, rule="The published pose is compared with the simulated truth after the faults have stopped, in units of the reported uncertainty."),
 "C22": dict(nodes=["distort"], quick_s=20, quick_cases=20000, rule="A random program of timer operations under a simulated clock that jumps; every answer is compared with a list of the completed intervals.", real=["msf_timing (Timer, Timing)"]),
 "C23": dict(nodes=["distort"], quick_s=20, quick_cases=20000, rule="A distorter under a seeded random source is called at random steps and read out with steps of zero length; its increments are compared with the configured rates, its samples with their distribution.", real=["msf_updates/src/msf_distort/PoseDistorter.cc"]),
 "C24": dict(nodes=["distort"], quick_s=20, quick_cases=20000, rule="Messages on all streams, duplicates, wrong stamps, clock jumps, reconfigurations; every forwarded message is compared with the received one.", real=["msf_distort/src/msf_distort.cc"]),
 "C25": dict(nodes=ALL + ["distort"], build=["plain", "asan"], quick_s=60, rule="The scenarios of all other checks, half of them with wild changes on top (special numbers, impossible stamps, losses, floods, foreign messages, calls, parameters); run under two contents of fresh memory and compared, and under AddressSanitizer and UndefinedBehaviorSanitizer."),
 "C26": dict(nodes=POSE, rule="Pose measurements declared relative, with constant offsets of position and attitude added to all of them, lost, late and repeated messages, other sensors in between; and single measurements without predecessor. Compared run against run and with the reference filter."),
 "C27": dict(nodes=["position", "position_pose"], rule="GPS fixes anywhere on the ellipsoid, with a first fix far away, outliers, losses, reorderings and re-initializations; compared with a run that is fed the east-north-up positions computed independently."),
}
NA = {
 "C28": "Batch computation on a list of samples held in memory: no threads, clock, I/O or other party whose behaviour a simulator could vary; it needs input-space testing or proof.",
 "C29": "Decided by the compiler: index tables are template metaprograms evaluated at compile time; there is no execution to simulate.",
}
