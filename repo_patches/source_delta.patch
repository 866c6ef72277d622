From f30ceef1cc0c12158fdb05a54b6b8295b3bba5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:38 +0000
Subject: [PATCH 01/37] fix: symmetrise covariances without Eigen aliasing

P = 0.5 * (P + P^T) is evaluated coefficient by coefficient while P is being
overwritten, so the result is not symmetric. Evaluate into a temporary first.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h     | 2 +-
 .../include/msf_core/implementation/msf_measurement_inl.h   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 7742cdf..89febec 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -85,7 +85,7 @@ void MSF_Core<EKFState_T>::SetPCore(
             -0.0002, -0.0002, -0.0004, -0.0001, 0.0003, 0.0001, -0.0001, -0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0010, 0.0000,
             -0.0000, 0.0000, -0.0001, 0.0000, 0.0000, -0.0001, -0.0000, -0.0000, -0.0000, 0.0000, 0.0000, -0.0000, 0.0000, 0.0000, 0.0001;
 
-  P_core = 0.5 * (P_core + P_core.transpose());
+  P_core = (0.5 * (P_core + P_core.transpose())).eval();
   P.template block<coreErrorStates, coreErrorStates>(0, 0) = P_core;
 }
 
diff --git a/msf_core/include/msf_core/implementation/msf_measurement_inl.h b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
index 70bf1b0..8db94b8 100644
--- a/msf_core/include/msf_core/implementation/msf_measurement_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
@@ -74,7 +74,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
 
   // Make sure P stays symmetric.
-  P = 0.5 * (P + P.transpose());
+  P = (0.5 * (P + P.transpose())).eval();
 
   core.ApplyCorrection(state, correction_);
 }
@@ -118,7 +118,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
 
   // Make sure P stays symmetric.
-  P = 0.5 * (P + P.transpose());
+  P = (0.5 * (P + P.transpose())).eval();
 
   core.ApplyCorrection(state, correction_);
 }
@@ -192,7 +192,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrectionRelative(
 
   // Make sure P stays symmetric.
   // TODO (slynen): EV, set Evalues<eps to zero, then reconstruct.
-  state_new->P = 0.5 * (state_new->P + state_new->P.transpose());
+  state_new->P = (0.5 * (state_new->P + state_new->P.transpose())).eval();
 
   core.ApplyCorrection(state_new, correction_);
 }
-- 
2.43.0


From 41c37d0bbd7d1b99ec9c214a2c5f8e460d08d3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:17 +0000
Subject: [PATCH 02/37] fix: keep the last-IMU iterator valid when the first
 state is moved

UpdateTime() erases the buffer element it_last_IMU points to, so the next IMU
message dereferenced a dangling iterator. Earlier states were also left in the
buffer, out of order when the gap was negative. The externally propagated path
invalidated the iterator by clearing the buffer and left time_P_propagated
behind.
---
 .../msf_core/implementation/msf_core_inl.h     | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 89febec..4dbd96e 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -165,8 +165,10 @@ void MSF_Core<EKFState_T>::ProcessIMU(
     if (fabs(currentState->time - lastState->time) > 0.1) {
       MSF_WARN_STREAM_THROTTLE(
           2, "large time-gap re-initializing to last state\n");
-      typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
-          lastState->time, currentState->time);
+      // Restart from this state only, any other early state is before the gap.
+      stateBuffer_.Clear();
+      lastState->time = currentState->time;
+      it_last_IMU = stateBuffer_.Insert(lastState);
       time_P_propagated = currentState->time;
       return;  // // early abort // // (if timegap too big)
     }
@@ -252,11 +254,14 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
 
   if (!predictionMade_) {
     if (fabs(currentState->time - lastState->time) > 5) {
-      typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
-          lastState->time, currentState->time);
+      // Restart from this state only, any other early state is before the gap.
+      stateBuffer_.Clear();
+      lastState->time = currentState->time;
+      it_last_IMU = stateBuffer_.Insert(lastState);
+      time_P_propagated = currentState->time;
       MSF_WARN_STREAM_THROTTLE(
           2, "large time-gap re-initializing to last state: "
-          << msf_core::timehuman(tmp->time));
+          << msf_core::timehuman(lastState->time));
       return;  // Early abort (if timegap too big).
     }
   }
@@ -295,7 +300,8 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     }
   }
 
-  stateBuffer_.Insert(currentState);
+  // The buffer might have been cleared, so keep the iterator valid.
+  it_last_IMU = stateBuffer_.Insert(currentState);
   PropagatePOneStep();
   predictionMade_ = true;
   usercalc_.PublishStateAfterPropagation(currentState);
-- 
2.43.0


From 6a143a2fb75b7af26376b277f48f25aa348e20f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:17 +0000
Subject: [PATCH 03/37] fix: ignore IMU samples that do not advance time

A repeated or slightly reordered IMU sample was integrated with dt <= 0, and
replaced the newest state as the base of the next propagation.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 4dbd96e..e70b117 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -180,6 +180,10 @@ void MSF_Core<EKFState_T>::ProcessIMU(
         "the buffer");
     return;
   }
+  // Slightly out of order or repeated: this sample can not advance the state.
+  if (currentState->time <= lastState->time) {
+    return;
+  }
   timer_PropPrepare.Stop();
 
   msf_timing::DebugTimer timer_PropState("PropState");
@@ -266,6 +270,11 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     }
   }
 
+  // Out of order or repeated: this state can not advance the current one.
+  if (predictionMade_ && currentState->time <= lastState->time) {
+    return;
+  }
+
   bool isnumeric = CheckForNumeric(
       currentState->template Get<StateDefinition_T::p>(),
       "before prediction p");
-- 
2.43.0


From eca6826539d11dc35995d7b5f62a2deb45709249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:53 +0000
Subject: [PATCH 04/37] fix: fuse each measurement once, also with equal time
 stamps

The buffer keeps one measurement per time. Inserting a second one returned the
iterator to the first, which was then applied again: a duplicated message was
counted twice, and a measurement of another sensor with the same stamp was lost
while the first one was counted twice.
---
 .../msf_core/implementation/msf_core_inl.h     | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index e70b117..c5b906c 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -21,7 +21,9 @@
 
 #include <chrono>
 #include <thread>
+#include <cmath>
 #include <deque>
+#include <limits>
 #include <numeric>
 #include <string>
 #include <vector>
@@ -640,6 +642,22 @@ void MSF_Core<EKFState_T>::AddMeasurement(
     return;  // Reject measurements too far in the past.
   }
 
+  // The buffer holds one measurement per time. The same one delivered again is
+  // dropped, one of another sensor at the same time goes right behind the first.
+  while (true) {
+    typename measurementBufferT::iterator_T it_same = MeasurementBuffer_
+        .GetIteratorAtValue(measurement->time, false);
+    if (it_same == MeasurementBuffer_.GetIteratorEnd()
+        || it_same->second->time != measurement->time) {
+      break;
+    }
+    if (it_same->second->sensorID_ == measurement->sensorID_) {
+      return;
+    }
+    measurement->time = nextafter(measurement->time,
+                                  std::numeric_limits<double>::max());
+  }
+
   // Add this measurement to the buffer and get an iterator to it.
   typename measurementBufferT::iterator_T it_meas =
       MeasurementBuffer_.Insert(measurement);
-- 
2.43.0


From cac075021518a2b4fb6bf6c8fc0f8b6eac775a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:13 +0000
Subject: [PATCH 05/37] fix: drop a measurement without a usable state from the
 history

It stayed in the buffer and could be applied later, when states for other
measurements had appeared near it. It also re-applied all later measurements on
top of states which already contained them.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 5 +++++
 msf_core/include/msf_core/msf_sortedContainer.h         | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index c5b906c..1cb5edb 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -684,6 +684,11 @@ void MSF_Core<EKFState_T>::AddMeasurement(
     if (state->time <= 0) {
       MSF_ERROR_STREAM_THROTTLE(
           1, __FUNCTION__<< " GetClosestState returned an invalid state");
+      if (it_meas->second == measurement) {
+        // Not usable, so do not keep it, nor touch the states after it.
+        MeasurementBuffer_.Erase(it_meas);
+        return;
+      }
       continue;
     }
 
diff --git a/msf_core/include/msf_core/msf_sortedContainer.h b/msf_core/include/msf_core/msf_sortedContainer.h
index fc0bd83..5cc5da6 100644
--- a/msf_core/include/msf_core/msf_sortedContainer.h
+++ b/msf_core/include/msf_core/msf_sortedContainer.h
@@ -98,6 +98,13 @@ class SortedContainer {
     return itpr.first;
   }
 
+  /**
+   * \brief Removes the object at the iterator from the internal container.
+   */
+  inline void Erase(const typename ListT::iterator& it) {
+    stateList.erase(it);
+  }
+
   /**
    * \brief Returns the iterator at the beginning of the internal container.
    */
-- 
2.43.0


From 9047f099a446b7a32bd536df8e46455ef692d66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:13 +0000
Subject: [PATCH 06/37] fix: re-propagate the covariance past a rejected late
 measurement

When re-applied history starts with a measurement the outlier gate rejects,
time_P_propagated was not moved back, so the following measurements were applied
on top of covariances which already contained them.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 1cb5edb..386500b 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -693,6 +693,11 @@ void MSF_Core<EKFState_T>::AddMeasurement(
     }
 
     msf_timing::DebugTimer timer_meas_apply("Apply measurement");
+    // The covariances after this state are outdated now, even if Apply() does
+    // not change the state (outlier) and thus does not call ApplyCorrection().
+    if (time_P_propagated > state->time) {
+      time_P_propagated = state->time;
+    }
     // Calls back core::ApplyCorrection(), which sets time_P_propagated to meas
     // time.
     it_meas->second->Apply(state, *this);
-- 
2.43.0


From eb58ae2df73d98402c1dde6e08f0cc2498ec6b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:00 +0000
Subject: [PATCH 07/37] fix: discard old history outside of the update loop and
 without updates too

CleanUpBuffers ran inside GetClosestState, while AddMeasurement holds iterators
into both buffers; a measurement delayed by about a minute was erased under it.
It also never ran without measurements, so the history of a node that only gets
IMU data grew without bound.
---
 .../include/msf_core/implementation/msf_core_inl.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 386500b..bf821a8 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -210,6 +210,7 @@ void MSF_Core<EKFState_T>::ProcessIMU(
     // Check if we can apply some pending measurement.
     HandlePendingMeasurements();
   }
+  CleanUpBuffers();
   seq++;
 
 }
@@ -323,6 +324,7 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
 
   // Check if we can apply some pending measurement.
   HandlePendingMeasurements();
+  CleanUpBuffers();
 }
 
 template<typename EKFState_T>
@@ -337,6 +339,12 @@ void MSF_Core<EKFState_T>::HandlePendingMeasurements() {
 
 template<typename EKFState_T>
 void MSF_Core<EKFState_T>::CleanUpBuffers() {
+  static int janitorRun = 0;
+  if (janitorRun++ <= 100) {
+    return;
+  }
+  janitorRun = 0;
+  // Remove very old states and measurements from the buffers.
   double timeold = 60;  // 1 min.
   stateBuffer_.ClearOlderThan(timeold);
   MeasurementBuffer_.ClearOlderThan(timeold);
@@ -861,12 +869,6 @@ shared_ptr<EKFState_T> MSF_Core<EKFState_T>::GetClosestState(double tstamp) {
     return stateBuffer_.GetInvalid();  // Early abort.
   }
 
-  static int janitorRun = 0;
-  if (janitorRun++ > 100) {
-    // Remove very old states and measurements from the buffers.
-    CleanUpBuffers();
-    janitorRun = 0;
-  }
   return closestState;
 }
 
-- 
2.43.0


From e92e5c70ddfe74e578266f1e5e48eaca84c5b725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:56 +0000
Subject: [PATCH 08/37] fix: initialise the pressure readings and shift their
 buffer safely

An initialization before the first pressure message used an uninitialised
reading, and the average was shifted with an overlapping memcpy.
---
 .../implementation/pressure_sensorhandler.hpp                | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
index 6077b4d..ea5f6ea 100644
--- a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
@@ -47,7 +47,8 @@ PressureSensorHandler::PressureSensorHandler(
                           : ros::TransportHints());
 
   memset(heightbuff, 0, sizeof(double) * heightbuffsize);
-
+  z_p_.setZero();
+  z_average_p.setZero();
 }
 
 void PressureSensorHandler::SetNoises(double n_zp) {
@@ -79,7 +80,7 @@ void PressureSensorHandler::MeasurementCallback(
   z_p_ = meas->z_p_;  // Store this for the init procedure.
 
   // Make averaged measurement.
-  memcpy(heightbuff, heightbuff + 1, sizeof(double) * (heightbuffsize - 1));
+  memmove(heightbuff, heightbuff + 1, sizeof(double) * (heightbuffsize - 1));
   heightbuff[heightbuffsize - 1] = meas->z_p_(0);
   double sum = 0;
   for (int k = 0; k < heightbuffsize; ++k)
-- 
2.43.0


From 834c35a327fad0b66cb4c9257a40c57bf3d81f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:56 +0000
Subject: [PATCH 09/37] fix: do not drop all poses after one stamp from the
 future

The throttle compared against the stamp of the last accepted pose without
considering its sign. One message with a wrong stamp, or a sensor clock set
back, made it drop every message until the wrong time was reached.
---
 .../pose_sensor_handler/implementation/pose_sensorhandler.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp b/msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp
index 9000c04..8bc9365 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp
@@ -17,6 +17,8 @@
  * limitations under the License.
  */
 #include <msf_core/eigen_utils.h>
+#include <cmath>
+
 #include <msf_core/msf_types.h>
 
 #ifndef POSE_SENSORHANDLER_HPP_
@@ -148,7 +150,7 @@ void PoseSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::ProcessPoseMeasurement(
   double time_now = msg->header.stamp.toSec();
   const double epsilon = 0.001; // Small time correction to avoid rounding
   // errors in the timestamps.
-  if (time_now - timestamp_previous_pose_ <=
+  if (std::abs(time_now - timestamp_previous_pose_) <=
       pose_measurement_minimum_dt_ - epsilon) {
     MSF_WARN_STREAM_THROTTLE(
         30, "Pose measurement throttling is on, dropping messages"
-- 
2.43.0


From 071d95f2e7a6d5f01f17ed9328971f593f094d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:56 +0000
Subject: [PATCH 10/37] fix: invert world-in-sensor poses with fixed covariance
 too

pose_measurement_world_sensor was ignored as soon as
pose_use_fixed_covariance was set.
---
 .../pose_sensor_handler/pose_measurement.h    | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index a64e726..6b67ed0 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -93,23 +93,23 @@ struct PoseMeasurement : public PoseMeasurementBase {
       R_.block<3, 3>(0, 3) = Eigen::Matrix<double, 3, 3>::Zero();
       R_.block<3, 3>(3, 0) = Eigen::Matrix<double, 3, 3>::Zero();
       R_(6, 6) = 1e-6;  // q_wv yaw-measurement noise
+    }
 
-      /*************************************************************************************/
-      // Use this if your pose sensor is ethzasl_ptam (www.ros.org/wiki/ethzasl_ptam)
-      // ethzasl_ptam publishes the camera pose as the world seen from the camera.
-      if (!measurement_world_sensor_) {
-        Eigen::Matrix<double, 3, 3> C_zq = z_q_.toRotationMatrix();
-        z_q_ = z_q_.conjugate();
-        z_p_ = -C_zq.transpose() * z_p_;
+    /*************************************************************************************/
+    // Use this if your pose sensor is ethzasl_ptam (www.ros.org/wiki/ethzasl_ptam)
+    // ethzasl_ptam publishes the camera pose as the world seen from the camera.
+    if (!measurement_world_sensor_) {
+      Eigen::Matrix<double, 3, 3> C_zq = z_q_.toRotationMatrix();
+      z_q_ = z_q_.conjugate();
+      z_p_ = -C_zq.transpose() * z_p_;
 
-        Eigen::Matrix<double, 6, 6> C_cov(Eigen::Matrix<double, 6, 6>::Zero());
-        C_cov.block<3, 3>(0, 0) = C_zq;
-        C_cov.block<3, 3>(3, 3) = C_zq;
+      Eigen::Matrix<double, 6, 6> C_cov(Eigen::Matrix<double, 6, 6>::Zero());
+      C_cov.block<3, 3>(0, 0) = C_zq;
+      C_cov.block<3, 3>(3, 3) = C_zq;
 
-        R_.block<6, 6>(0, 0) = C_cov.transpose() * R_.block<6, 6>(0, 0) * C_cov;
-      }
-      /*************************************************************************************/
+      R_.block<6, 6>(0, 0) = C_cov.transpose() * R_.block<6, 6>(0, 0) * C_cov;
     }
+    /*************************************************************************************/
   }
  public:
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
-- 
2.43.0


From 97460913143a1f28e9484fa557cc62ad01c68ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:27 +0000
Subject: [PATCH 11/37] fix: Jacobian of the pose measurement with respect to
 p_wv

The measurement is L * C_wv * (p - p_wv + C_q * p_ic), so the derivative is
-L * C_wv and not -I, as soon as scale or vision frame attitude differ from
identity.
---
 .../msf_updates/pose_sensor_handler/pose_measurement.h        | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 6b67ed0..488fe9f 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -247,12 +247,10 @@ struct PoseMeasurement : public PoseMeasurementBase {
             (C_wv * C_q * state.Get<StateLIdx>()(0)).eval();  //p_ic
 
 
-    // TODO (slynen): Check scale commenting
     H.block<3, 3>(0, kIdxstartcorr_pwv) =
         driftwvposfix ?
             Eigen::Matrix<double, 3, 3>::Zero() :
-            (-Eigen::Matrix<double, 3, 3>::Identity()
-            /* * state.Get<StateLIdx>()(0)*/).eval();  //p_wv
+            (-C_wv * state.Get<StateLIdx>()(0)).eval();  //p_wv
 
     // Attitude.
     H.block<3, 3>(3, kIdxstartcorr_q) = C_ci;  // q
-- 
2.43.0


From d554004975434f88fb0648319e3601799ac9f085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:27 +0000
Subject: [PATCH 12/37] fix: do not reject poses because of the yaw of the
 vision frame

The pseudo measurement of the vision frame yaw is disabled in the Jacobian, but
its residual was still part of the Mahalanobis distance with a variance of 1e-6.
With outlier rejection, every pose was rejected once q_wv had some yaw.
---
 .../msf_updates/pose_sensor_handler/pose_measurement.h    | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 488fe9f..5833dda 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -312,11 +312,9 @@ struct PoseMeasurement : public PoseMeasurementBase {
           * state.Get<StateDefinition_T::q>()
           * state.Get<StateQicIdx>()).conjugate() * z_q_;
       r_old.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
-      // Vision world yaw drift.
-      q_err = state.Get<StateQwvIdx>();
-
-      r_old(6, 0) = -2 * (q_err.w() * q_err.z() + q_err.x() * q_err.y())
-          / (1 - 2 * (q_err.y() * q_err.y() + q_err.z() * q_err.z()));
+      // Vision world yaw drift: not measured, see CalculateH. A residual here
+      // would not correct the state, but trip the outlier rejection.
+      r_old(6, 0) = 0;
 
       if (!CheckForNumeric(r_old, "r_old")) {
         MSF_ERROR_STREAM("r_old: "<<r_old);
-- 
2.43.0


From 1a469ba00d0901a2ebab57761b7dde1bb0421a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:27 +0000
Subject: [PATCH 13/37] fix: sign and frame of the attitude residual of
 relative poses

The residual was computed from new to old while the Jacobian is the one from old
to new, so relative attitude measurements pushed the estimate away from them.
---
 .../pose_sensor_handler/pose_measurement.h    | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 5833dda..1eedc2a 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -410,18 +410,24 @@ struct PoseMeasurement : public PoseMeasurementBase {
       r_new.block<3, 1>(0, 0) = diffmeaspos - diffprobpos;
 
       // Attitude:
-      Eigen::Quaternion<double> diffprobatt = (state_new.Get<StateQwvIdx>()
-          * state_new.Get<StateDefinition_T::q>()
-          * state_new.Get<StateQicIdx>()).conjugate()
-          * (state_old.Get<StateQwvIdx>()
-              * state_old.Get<StateDefinition_T::q>()
-              * state_old.Get<StateQicIdx>());
+      Eigen::Quaternion<double> diffprobatt = (state_old.Get<StateQwvIdx>()
+          * state_old.Get<StateDefinition_T::q>()
+          * state_old.Get<StateQicIdx>()).conjugate()
+          * (state_new.Get<StateQwvIdx>()
+              * state_new.Get<StateDefinition_T::q>()
+              * state_new.Get<StateQicIdx>());
 
-      Eigen::Quaternion<double> diffmeasatt = z_q_.conjugate() * prevmeas->z_q_;
+      Eigen::Quaternion<double> diffmeasatt = prevmeas->z_q_.conjugate() * z_q_;
 
       Eigen::Quaternion<double> q_err;
       q_err = diffprobatt.conjugate() * diffmeasatt;
 
+      // An attitude error at the old pose shows up rotated into the new one.
+      H_old.block<3, msf_core::MSF_Core<EKFState_T>::nErrorStatesAtCompileTime>(3, 0) =
+          (diffprobatt.conjugate().toRotationMatrix()
+              * H_old.block<3, msf_core::MSF_Core<EKFState_T>::nErrorStatesAtCompileTime>(
+                  3, 0)).eval();
+
       r_new.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
       // Vision world yaw drift.
       q_err = state_new.Get<StateQwvIdx>();
-- 
2.43.0


From 367823b948a792d740785b6de8792ef4e8008e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:27 +0000
Subject: [PATCH 14/37] fix: check the residual of relative poses, not an
 uninitialised matrix

---
 .../msf_updates/pose_sensor_handler/pose_measurement.h      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 1eedc2a..df391ff 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -374,7 +374,7 @@ struct PoseMeasurement : public PoseMeasurementBase {
       Eigen::Matrix<double, nMeasurements,
           msf_core::MSF_Core<EKFState_T>::nErrorStatesAtCompileTime> H_new,
           H_old;
-      Eigen::Matrix<double, nMeasurements, 1> r_new, r_old;
+      Eigen::Matrix<double, nMeasurements, 1> r_new;
 
       CalculateH(state_nonconst_old, H_old);
 
@@ -435,8 +435,8 @@ struct PoseMeasurement : public PoseMeasurementBase {
       r_new(6, 0) = -2 * (q_err.w() * q_err.z() + q_err.x() * q_err.y())
           / (1 - 2 * (q_err.y() * q_err.y() + q_err.z() * q_err.z()));
 
-      if (!CheckForNumeric(r_old, "r_old")) {
-        MSF_ERROR_STREAM("r_old: "<<r_old);
+      if (!CheckForNumeric(r_new, "r_new")) {
+        MSF_ERROR_STREAM("r_new: "<<r_new);
         MSF_WARN_STREAM(
             "state: "<<const_cast<EKFState_T&>(state_new). ToEigenVector().transpose());
       }
-- 
2.43.0


From 3918e5cb0966fb4f233904e25b8fd61ef140985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:43 +0000
Subject: [PATCH 15/37] fix: apply pose_delay on the pose-pressure node

The configured delay was never passed to the pose handler. The noises were lost
when the same request asked for a height initialization which is refused.
---
 .../pose_pressure_msf/pose_pressure_sensormanager.h    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 2a18ac1..f1220bb 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -86,6 +86,11 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
    */
   virtual void Config(Config_T &config, uint32_t level) {
     config_ = config;
+    // Pass the noise values and the delay to the sensor handlers.
+    pose_handler_->SetNoises(config.pose_noise_meas_p,
+                             config.pose_noise_meas_q);
+    pose_handler_->SetDelay(config.pose_delay);
+    pressure_handler_->SetNoises(config.press_noise_meas_p);
     // Init call with "init filter" checkbox.
     if ((level & msf_updates::SinglePoseSensor_INIT_FILTER)
         && config.core_init_filter == true) {
@@ -105,11 +110,6 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
       Init(scale);
       config.core_set_height = false;
     }
-
-    // Pass the noise values to the sensor handlers.
-    pose_handler_->SetNoises(config.pose_noise_meas_p,
-                             config.pose_noise_meas_q);
-    pressure_handler_->SetNoises(config.press_noise_meas_p);
   }
 
   void Init(double scale) const {
-- 
2.43.0


From 60eb333dd4d1bbff6ff8684ea952262acfe8ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:43 +0000
Subject: [PATCH 16/37] fix: use the configured process noise of p_wv and p_ip

pose_noise_p_wv of the pose-pressure node and position_noise_p_ip of the
position-pose node had no effect.
---
 .../src/pose_pressure_msf/pose_pressure_sensormanager.h       | 4 ++++
 .../src/position_pose_msf/position_pose_sensormanager.h       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index f1220bb..4e91eca 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -208,6 +208,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
   virtual void CalculateQAuxiliaryStates(EKFState_T& state, double dt) const {
     const msf_core::Vector3 nqwvv = msf_core::Vector3::Constant(
         config_.pose_noise_q_wv);
+    const msf_core::Vector3 npwvv = msf_core::Vector3::Constant(
+        config_.pose_noise_p_wv);
     const msf_core::Vector3 nqicv = msf_core::Vector3::Constant(
         config_.pose_noise_q_ic);
     const msf_core::Vector3 npicv = msf_core::Vector3::Constant(
@@ -223,6 +225,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
         .asDiagonal();
     state.GetQBlock<StateDefinition_T::q_wv>() =
         (dt * nqwvv.cwiseProduct(nqwvv)).asDiagonal();
+    state.GetQBlock<StateDefinition_T::p_wv>() =
+        (dt * npwvv.cwiseProduct(npwvv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::q_ic>() =
         (dt * nqicv.cwiseProduct(nqicv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::p_ic>() =
diff --git a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
index e285368..5ddf975 100644
--- a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
+++ b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
@@ -255,6 +255,8 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
         config_.pose_noise_q_ic);
     const msf_core::Vector3 npicv = msf_core::Vector3::Constant(
         config_.pose_noise_p_ic);
+    const msf_core::Vector3 npipv = msf_core::Vector3::Constant(
+        config_.position_noise_p_ip);
     const msf_core::Vector1 n_L = msf_core::Vector1::Constant(
         config_.pose_noise_scale);
 
@@ -270,6 +272,8 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
         (dt * nqicv.cwiseProduct(nqicv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::p_ic>() =
         (dt * npicv.cwiseProduct(npicv)).asDiagonal();
+    state.GetQBlock<StateDefinition_T::p_ip>() =
+        (dt * npipv.cwiseProduct(npipv)).asDiagonal();
   }
 
   virtual void SetStateCovariance(
-- 
2.43.0


From 8ca81eb1c3b54add5298bc0a10da4cd28d5344cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:51 +0000
Subject: [PATCH 17/37] fix: refuse scale and height initializations without a
 positive scale

A measured height of zero or of the opposite sign, or a scale request which is
not positive, initialised the running filter with infinite, NaN or negative
values. A refused height request also left its checkbox set, so that the next
request was not noticed.
---
 msf_updates/src/pose_msf/pose_sensormanager.h | 20 ++++++++++++++++++-
 .../pose_pressure_sensormanager.h             |  8 +++++++-
 .../position_pose_sensormanager.h             |  8 +++++++-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/msf_updates/src/pose_msf/pose_sensormanager.h b/msf_updates/src/pose_msf/pose_sensormanager.h
index d990bd7..9ea229b 100644
--- a/msf_updates/src/pose_msf/pose_sensormanager.h
+++ b/msf_updates/src/pose_msf/pose_sensormanager.h
@@ -104,6 +104,7 @@ class PoseSensorManager : public msf_core::MSF_SensorManagerROS<
     // Init call with "set height" checkbox.
     if ((level & msf_updates::SinglePoseSensor_SET_HEIGHT)
         && config.core_set_height == true) {
+      config.core_set_height = false;
       Eigen::Matrix<double, 3, 1> p = pose_handler_->GetPositionMeasurement();
       if (p.norm() == 0) {
         MSF_WARN_STREAM(
@@ -112,14 +113,24 @@ class PoseSensorManager : public msf_core::MSF_SensorManagerROS<
         return;
       }
       double scale = p[2] / config.core_height;
+      if (!(scale > 0) || std::isinf(scale)) {
+        MSF_WARN_STREAM(
+            "The measured height does not allow a height init. Scale would be "
+            << scale << ".");
+        return;
+      }
       Init(scale);
-      config.core_set_height = false;
     }
   }
 
   bool InitScale(sensor_fusion_comm::InitScale::Request &req,
                  sensor_fusion_comm::InitScale::Response &res) {
     ROS_INFO("Initialize filter with scale %f", req.scale);
+    if (!(req.scale > 0) || std::isinf(req.scale)) {
+      MSF_WARN_STREAM("The scale has to be positive. Scale init not allowed.");
+      res.result = "The scale has to be positive.";
+      return false;
+    }
     Init(req.scale);
     res.result = "Initialized scale";
     return true;
@@ -138,6 +149,13 @@ class PoseSensorManager : public msf_core::MSF_SensorManagerROS<
     std::stringstream ss;
     if (std::abs(req.height) > MIN_INITIALIZATION_HEIGHT) {
       double scale = p[2] / req.height;
+      if (!(scale > 0) || std::isinf(scale)) {
+        MSF_WARN_STREAM(
+            "The measured height does not allow a height init. Scale would be "
+            << scale << ".");
+        res.result = "The measured height does not allow this initialization.";
+        return false;
+      }
       Init(scale);
       ss << scale;
       res.result = "Initialized by known height. Initial scale = " + ss.str();
diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 4e91eca..5b57341 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -100,6 +100,7 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
     // Init call with "set height" checkbox.
     if ((level & msf_updates::SinglePoseSensor_SET_HEIGHT)
         && config.core_set_height == true) {
+      config.core_set_height = false;
       Eigen::Matrix<double, 3, 1> p = pose_handler_->GetPositionMeasurement();
       if (p.norm() == 0) {
         MSF_WARN_STREAM(
@@ -107,8 +108,13 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
         return;
       }
       double scale = p[2] / config.core_height;
+      if (!(scale > 0) || std::isinf(scale)) {
+        MSF_WARN_STREAM(
+            "The measured height does not allow a height init. Scale would be "
+            << scale << ".");
+        return;
+      }
       Init(scale);
-      config.core_set_height = false;
     }
   }
 
diff --git a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
index 5ddf975..3dfac1f 100644
--- a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
+++ b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
@@ -108,6 +108,7 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
     // Init call with "set height" checkbox.
     if ((level & msf_updates::PositionPoseSensor_SET_HEIGHT)
         && config.core_set_height == true) {
+      config.core_set_height = false;
       Eigen::Matrix<double, 3, 1> p = pose_handler_->GetPositionMeasurement();
       if (p.norm() == 0) {
         MSF_WARN_STREAM(
@@ -116,8 +117,13 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
         return;
       }
       double scale = p[2] / config.core_height;
+      if (!(scale > 0) || std::isinf(scale)) {
+        MSF_WARN_STREAM(
+            "The measured height does not allow a height init. Scale would be "
+            << scale << ".");
+        return;
+      }
       Init(scale);
-      config.core_set_height = false;
     }
   }
 
-- 
2.43.0


From 387f2d54de29fa24c8fb9a67857e338bf84449b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:06 +0000
Subject: [PATCH 18/37] fix: Jacobians of the spherical position measurements

They were evaluated at the position of the IMU instead of the one of the sensor
and with the inverse of the attitude.
---
 .../spherical_measurement.h                          | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index 3d127f5..65bb1b8 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -121,9 +121,11 @@ struct AngleMeasurement : public AngleMeasurementBase {
       state_in->ClearCrossCov<StateDefinition_T::p_ip>();
 
     Eigen::Matrix<double, 3, 3> C_q = state.Get<StateDefinition_T::q>()
-        .conjugate().toRotationMatrix();
-    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>();
+        .toRotationMatrix();
     Eigen::Matrix<double, 3, 1> p_ip = state.Get<StateDefinition_T::p_ip>();
+    // Position of the sensor.
+    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>()
+        + C_q * p_ip;
     Eigen::Matrix<double, 2, 3> dz_dp;
     dz_dp(0, 0) = (p_(0, 0) * p_(2, 0) * 1.0
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0)))
@@ -389,7 +391,7 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
 
     // Get rotation matrices.
     Eigen::Matrix<double, 3, 3> C_q = state.Get<StateDefinition_T::q>()
-        .conjugate().toRotationMatrix();
+        .toRotationMatrix();
 
     // Preprocess for elements in H matrix.
     // Get indices of states in error vector.
@@ -410,8 +412,10 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
     if (fixed_p_pos_imu)
       state_in->ClearCrossCov<StateDefinition_T::p_ip>();
 
-    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>();
     Eigen::Matrix<double, 3, 1> p_ip = state.Get<StateDefinition_T::p_ip>();
+    // Position of the sensor.
+    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>()
+        + C_q * p_ip;
     Eigen::Matrix<double, 1, 3> dz_dp;
     dz_dp(0, 0) = p_(0, 0) * 1.0
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
-- 
2.43.0


From 95f111efaa5f8a7ea315f175f6f7c86ff9ed4913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:06 +0000
Subject: [PATCH 19/37] fix: do not correct p_ip of the spherical node when it
 is fixed

---
 .../spherical_position_sensor/spherical_measurement.h       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index 65bb1b8..9371279 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -243,7 +243,8 @@ struct AngleMeasurement : public AngleMeasurementBase {
         / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0));
     H.block<2, 3>(0, idxstartcorr_p_) = dz_dp;
     H.block<2, 3>(0, idxstartcorr_q_) = dz_dq;
-    H.block<2, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
+    H.block<2, 3>(0, idxstartcorr_p_pi_) =
+        fixed_p_pos_imu ? Eigen::Matrix<double, 2, 3>::Zero().eval() : dz_dp_ip;
 
   }
 
@@ -463,7 +464,8 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
     H.block<1, 3>(0, idxstartcorr_p_) = dz_dp;
     H.block<1, 3>(0, idxstartcorr_q_) = dz_dq;
-    H.block<1, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
+    H.block<1, 3>(0, idxstartcorr_p_pi_) =
+        fixed_p_pos_imu ? Eigen::Matrix<double, 1, 3>::Zero().eval() : dz_dp_ip;
   }
 
   /**
-- 
2.43.0


From 1df6459fd5b52cc43241d9249beb93536c9d1645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:48 +0000
Subject: [PATCH 20/37] fix: subscribe the spherical node to the IMU

It had no IMU handler, so it could be initialised but never propagated nor
fused anything.
---
 msf_updates/src/spherical_msf/spherical_sensormanager.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/msf_updates/src/spherical_msf/spherical_sensormanager.h b/msf_updates/src/spherical_msf/spherical_sensormanager.h
index 5e1c586..6446dbb 100644
--- a/msf_updates/src/spherical_msf/spherical_sensormanager.h
+++ b/msf_updates/src/spherical_msf/spherical_sensormanager.h
@@ -21,6 +21,7 @@
 
 #include <msf_core/msf_core.h>
 #include <msf_core/msf_sensormanagerROS.h>
+#include <msf_core/msf_IMUHandler_ROS.h>
 #include "msf_statedef.hpp"
 #include <msf_updates/spherical_position_sensor/spherical_sensorhandler.h>
 #include <msf_updates/spherical_position_sensor/spherical_measurement.h>
@@ -45,6 +46,9 @@ class SensorManager : public msf_core::MSF_SensorManagerROS<
 
   SensorManager(
       ros::NodeHandle pnh = ros::NodeHandle("~/spherical_position_sensor")) {
+    imu_handler_.reset(
+        new msf_core::IMUHandler_ROS<msf_updates::EKFState>(*this, "msf_core",
+                                                            "imu_handler"));
     angle_handler_.reset(
         new AngleSensorHandler_T(*this, "", "spherical_position_sensor"));
     AddHandler(angle_handler_);
@@ -65,6 +69,7 @@ class SensorManager : public msf_core::MSF_SensorManagerROS<
   }
 
  private:
+  shared_ptr<msf_core::IMUHandler_ROS<msf_updates::EKFState> > imu_handler_;
   boost::shared_ptr<AngleSensorHandler_T> angle_handler_;
   boost::shared_ptr<DistanceSensorHandler_T> distance_handler_;
 
-- 
2.43.0


From d94ca23fb376ebbb74af1fd30ce970855c59b5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:22 +0000
Subject: [PATCH 21/37] fix: discard external states which are too short

The state array of the message was read without checking its size, here and
when computing the next correction.
---
 msf_core/include/msf_core/msf_IMUHandler_ROS.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msf_core/include/msf_core/msf_IMUHandler_ROS.h b/msf_core/include/msf_core/msf_IMUHandler_ROS.h
index eb27c89..35e8b0f 100644
--- a/msf_core/include/msf_core/msf_IMUHandler_ROS.h
+++ b/msf_core/include/msf_core/msf_IMUHandler_ROS.h
@@ -61,6 +61,12 @@ class IMUHandler_ROS : public IMUHandler<EKFState_T> {
   virtual ~IMUHandler_ROS() { }
 
   void StateCallback(const sensor_fusion_comm::ExtEkfConstPtr & msg) {
+    if (msg->state.size() < HLI_EKF_STATE_SIZE) {
+      MSF_WARN_STREAM_THROTTLE(
+          1, "Received an external state with only " << msg->state.size()
+          << " entries. Discarding message.");
+      return;
+    }
     static_cast<MSF_SensorManagerROS<EKFState_T>&>(this->manager_)
         .SetHLControllerStateBuffer(*msg);
 
-- 
2.43.0


From 88bae4fb449d826455b35f2327cfe28ef357d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:22 +0000
Subject: [PATCH 22/37] fix: do not send corrections relative to a non-finite
 external state

---
 msf_core/include/msf_core/msf_sensormanagerROS.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/msf_sensormanagerROS.h b/msf_core/include/msf_core/msf_sensormanagerROS.h
index 5a23374..8352cb0 100644
--- a/msf_core/include/msf_core/msf_sensormanagerROS.h
+++ b/msf_core/include/msf_core/msf_sensormanagerROS.h
@@ -316,7 +316,12 @@ struct MSF_SensorManagerROS : public msf_core::MSF_SensorManager<EKFState_T> {
         msgCorrect_.flag = sensor_fusion_comm::ExtEkf::state_correction;
       }
 
-      if (state->CheckStateForNumeric()) {  // If not NaN.
+      // If not NaN, also because of the state the external propagation sent.
+      if (state->CheckStateForNumeric()
+          && CheckForNumeric(
+              Eigen::Map<const Eigen::Matrix<float, HLI_EKF_STATE_SIZE, 1> >(
+                  msgCorrect_.state.data()),
+              "correction")) {
         pubCorrect_.publish(msgCorrect_);
       } else {
         MSF_WARN_STREAM_THROTTLE(
-- 
2.43.0


From 3705d00052d37995dbdfeb82490973f12d8cf084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:18 +0000
Subject: [PATCH 23/37] fix: use the powers of Omega in the series of the
 quaternion integration

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index bf821a8..a125540 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -387,10 +387,11 @@ void MSF_Core<EKFState_T>::PropagateState(shared_ptr<EKFState_T>& state_old,
   Matrix4 MatExp;
   MatExp.setIdentity();
   OmegaMean *= 0.5 * dt;
+  Matrix4 OmegaMeanPow = OmegaMean;
   for (int i = 1; i < 5; i++) {  // Can be made fourth order or less to save cycles.
     div *= i;
-    MatExp = MatExp + OmegaMean / div;
-    OmegaMean *= OmegaMean;
+    MatExp = MatExp + OmegaMeanPow / div;
+    OmegaMeanPow = OmegaMeanPow * OmegaMean;
   }
 
   // First oder quat integration matrix.
-- 
2.43.0


From 86c1008060c2924a49a8a2eb06f18a23ca0f411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:18 +0000
Subject: [PATCH 24/37] fix: order of the accumulated state transition

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index a125540..e11b28a 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -461,7 +461,7 @@ void MSF_Core<EKFState_T>::GetAccumulatedStateTransitionStochasticCloning(
       MSF_Core<EKFState_T>::nErrorStatesAtCompileTime> F_type;
   F = F_type::Identity();
   for (; it != itend; ++it) {
-    F = F * it->second->Fd;
+    F = it->second->Fd * F;
   }
 }
 
-- 
2.43.0


From a2bca8c60d9a40ff134a9cb8aed0a22138539a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:18 +0000
Subject: [PATCH 25/37] fix: replace acceleration spikes by the last sample

---
 .../msf_core/implementation/msf_core_inl.h    | 20 ++-----------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index e11b28a..01780d1 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -144,20 +144,8 @@ void MSF_Core<EKFState_T>::ProcessIMU(
 
 
   // Remove acc spikes (TODO (slynen): find a cleaner way to do this).
-  static Eigen::Matrix<double, 3, 1> last_am =
-      Eigen::Matrix<double, 3, 1>(0, 0, 0);
   if (currentState->a_m.norm() > 50)
-    currentState->a_m = last_am;
-  else {
-    // Try to get the state before the current time.
-    if (lastState->time == constants::INVALID_TIME) {
-      MSF_WARN_STREAM(
-          "Accelerometer readings had a spike, but no prior state was in the "
-          "buffer to take cleaner measurements from");
-      return;
-    }
-    last_am = lastState->a_m;
-  }
+    currentState->a_m = lastState->a_m;
   if (!predictionMade_) {
     if (lastState->time == constants::INVALID_TIME) {
       MSF_WARN_STREAM("Wanted to compare prediction time offset to last state, "
@@ -252,12 +240,8 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
   currentState->noise_acc = Vector3::Constant(usercalc_.GetParamNoiseAcc());
 
   // Remove acc spikes (TODO (slynen): Find a cleaner way to do this).
-  static Eigen::Matrix<double, 3, 1> last_am =
-      Eigen::Matrix<double, 3, 1>(0, 0, 0);
   if (currentState->a_m.norm() > 50)
-    currentState->a_m = last_am;
-  else
-    last_am = currentState->a_m;
+    currentState->a_m = lastState->a_m;
 
   if (!predictionMade_) {
     if (fabs(currentState->time - lastState->time) > 5) {
-- 
2.43.0


From d5ba6c685d6417f82879da43b64785c9d833dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:47 +0000
Subject: [PATCH 26/37] fix: process noise of the core states

The generated terms were not the integral of Fd*Gc*Qc*Gc'*Fd': the gyro noise
entered the velocity blocks with the wrong power of dt and not symmetrically,
so that Qd was indefinite, with the default noise parameters too.
---
 .../msf_core/implementation/calcQCore.h       | 726 ++----------------
 1 file changed, 57 insertions(+), 669 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/calcQCore.h b/msf_core/include/msf_core/implementation/calcQCore.h
index 0bc5b2d..5979c25 100644
--- a/msf_core/include/msf_core/implementation/calcQCore.h
+++ b/msf_core/include/msf_core/implementation/calcQCore.h
@@ -17,11 +17,14 @@
 #ifndef CALCQ_H_
 #define CALCQ_H_
 
+#include <cmath>
+
 #include <Eigen/Eigen>
+#include <msf_core/eigen_utils.h>
 #include <msf_core/msf_core.h>
 
 /**
- * \brief Calculate the observation covariance matrix for the core states.
+ * \brief Calculate the process noise covariance matrix for the core states.
  * The user has the possibility to set the blocks of Q for user defined states.
  * The EKF core calls the respective user defined function.
  */
@@ -36,348 +39,6 @@ void CalcQCore(const double dt, const Eigen::Quaternion<double> & q,
                 const Eigen::MatrixBase<Derived> & n_bw,
                 Eigen::MatrixBase<DerivedQ> & Qd) {
 
-  const double q1 = q.w(), q2 = q.x(), q3 = q.y(), q4 = q.z();
-  const double ew1 = ew(0), ew2 = ew(1), ew3 = ew(2);
-  const double ea1 = ea(0), ea2 = ea(1), ea3 = ea(2);
-  const double n_a1 = n_a(0), n_a2 = n_a(1), n_a3 = n_a(2);
-  const double n_ba1 = n_ba(0), n_ba2 = n_ba(1), n_ba3 = n_ba(2);
-  const double n_w1 = n_w(0), n_w2 = n_w(1), n_w3 = n_w(2);
-  const double n_bw1 = n_bw(0), n_bw2 = n_bw(1), n_bw3 = n_bw(2);
-
-  const double t343 = dt * dt;
-  const double t348 = q1 * q4 * 2.0;
-  const double t349 = q2 * q3 * 2.0;
-  const double t344 = t348 - t349;
-  const double t356 = q1 * q3 * 2.0;
-  const double t357 = q2 * q4 * 2.0;
-  const double t345 = t356 + t357;
-  const double t350 = q1 * q1;
-  const double t351 = q2 * q2;
-  const double t352 = q3 * q3;
-  const double t353 = q4 * q4;
-  const double t346 = t350 + t351 - t352 - t353;
-  const double t347 = n_a1 * n_a1;
-  const double t354 = n_a2 * n_a2;
-  const double t355 = n_a3 * n_a3;
-  const double t358 = q1 * q2 * 2.0;
-  const double t359 = t344 * t344;
-  const double t360 = t345 * t345;
-  const double t361 = t346 * t346;
-  const double t363 = ea2 * t345;
-  const double t364 = ea3 * t344;
-  const double t362 = t363 + t364;
-  const double t365 = t362 * t362;
-  const double t366 = t348 + t349;
-  const double t367 = t350 - t351 + t352 - t353;
-  const double t368 = q3 * q4 * 2.0;
-  const double t369 = t356 - t357;
-  const double t370 = t350 - t351 - t352 + t353;
-  const double t371 = n_w3 * n_w3;
-  const double t372 = t358 + t368;
-  const double t373 = n_w2 * n_w2;
-  const double t374 = n_w1 * n_w1;
-  const double t375 = dt * t343 * t346 * t347 * t366 * (1.0 / 3.0);
-  const double t376 = t358 - t368;
-  const double t377 = t343 * t346 * t347 * t366 * (1.0 / 2.0);
-  const double t378 = t366 * t366;
-  const double t379 = t376 * t376;
-  const double t380 = ea1 * t367;
-  const double t391 = ea2 * t366;
-  const double t381 = t380 - t391;
-  const double t382 = ea3 * t367;
-  const double t383 = ea2 * t376;
-  const double t384 = t382 + t383;
-  const double t385 = t367 * t367;
-  const double t386 = ea1 * t376;
-  const double t387 = ea3 * t366;
-  const double t388 = t386 + t387;
-  const double t389 = ea2 * t370;
-  const double t407 = ea3 * t372;
-  const double t390 = t389 - t407;
-  const double t392 = ea1 * t372;
-  const double t393 = ea2 * t369;
-  const double t394 = t392 + t393;
-  const double t395 = ea1 * t370;
-  const double t396 = ea3 * t369;
-  const double t397 = t395 + t396;
-  const double t398 = n_ba1 * n_ba1;
-  const double t399 = n_ba2 * n_ba2;
-  const double t400 = n_ba3 * n_ba3;
-  const double t401 = dt * t343 * t345 * t355 * t370 * (1.0 / 3.0);
-  const double t402 = t401 - dt * t343 * t346 * t347 * t369 * (1.0 / 3.0)
-      - dt * t343 * t344 * t354 * t372 * (1.0 / 3.0);
-  const double t403 = dt * t343 * t354 * t367 * t372 * (1.0 / 3.0);
-  const double t404 = t403 - dt * t343 * t347 * t366 * t369 * (1.0 / 3.0)
-      - dt * t343 * t355 * t370 * t376 * (1.0 / 3.0);
-  const double t405 = t343 * t345 * t355 * t370 * (1.0 / 2.0);
-  const double t406 = dt * t343 * t362 * t373 * t397 * (1.0 / 6.0);
-  const double t421 = t343 * t346 * t347 * t369 * (1.0 / 2.0);
-  const double t422 = dt * t343 * t362 * t371 * t394 * (1.0 / 6.0);
-  const double t423 = t343 * t344 * t354 * t372 * (1.0 / 2.0);
-  const double t424 = dt * t343 * t362 * t374 * t390 * (1.0 / 6.0);
-  const double t408 = t405 + t406 - t421 - t422 - t423 - t424;
-  const double t409 = t343 * t354 * t367 * t372 * (1.0 / 2.0);
-  const double t410 = dt * t343 * t374 * t384 * t390 * (1.0 / 6.0);
-  const double t411 = dt * t343 * t373 * t388 * t397 * (1.0 / 6.0);
-  const double t463 = t343 * t355 * t370 * t376 * (1.0 / 2.0);
-  const double t464 = t343 * t347 * t366 * t369 * (1.0 / 2.0);
-  const double t465 = dt * t343 * t371 * t381 * t394 * (1.0 / 6.0);
-  const double t412 = t409 + t410 + t411 - t463 - t464 - t465;
-  const double t413 = t369 * t369;
-  const double t414 = t372 * t372;
-  const double t415 = t370 * t370;
-  const double t416 = t343 * t354 * t359 * (1.0 / 2.0);
-  const double t417 = t343 * t355 * t360 * (1.0 / 2.0);
-  const double t418 = t343 * t347 * t361 * (1.0 / 2.0);
-  const double t419 = t416 + t417 + t418 - dt * t343 * t365 * t371 * (1.0 / 6.0)
-      - dt * t343 * t365 * t373 * (1.0 / 6.0)
-      - dt * t343 * t365 * t374 * (1.0 / 6.0);
-  const double t453 = t343 * t344 * t354 * t367 * (1.0 / 2.0);
-  const double t454 = t343 * t345 * t355 * t376 * (1.0 / 2.0);
-  const double t420 = t377 - t453 - t454;
-  const double t426 = ew2 * t362;
-  const double t427 = ew3 * t362;
-  const double t425 = t426 - t427;
-  const double t428 = dt * t365;
-  const double t429 = ew1 * ew1;
-  const double t430 = ew2 * ew2;
-  const double t431 = ew3 * ew3;
-  const double t432 = t430 + t431;
-  const double t433 = t362 * t432;
-  const double t434 = ew1 * t343 * t365;
-  const double t435 = t429 + t431;
-  const double t436 = t362 * t435;
-  const double t443 = ew2 * ew3 * t362;
-  const double t437 = t433 + t436 - t443;
-  const double t438 = ew1 * t362 * t394;
-  const double t511 = ew1 * t362 * t397;
-  const double t439 = t438 - t511;
-  const double t440 = t343 * t439 * (1.0 / 2.0);
-  const double t441 = t429 + t430;
-  const double t442 = t362 * t441;
-  const double t444 = t390 * t432;
-  const double t445 = ew2 * t394;
-  const double t446 = ew3 * t397;
-  const double t447 = t445 + t446;
-  const double t448 = ew1 * ew2 * t362;
-  const double t449 = ew1 * ew3 * t362;
-  const double t450 = ew1 * ew3 * t362 * (1.0 / 2.0);
-  const double t451 = dt * t362;
-  const double t452 = ew1 * t343 * t362 * (1.0 / 2.0);
-  const double t455 = dt * t343 * t362 * t374 * t384 * (1.0 / 6.0);
-  const double t456 = t343 * t347 * t378 * (1.0 / 2.0);
-  const double t457 = t343 * t355 * t379 * (1.0 / 2.0);
-  const double t458 = t381 * t381;
-  const double t459 = t384 * t384;
-  const double t460 = t343 * t354 * t385 * (1.0 / 2.0);
-  const double t461 = t388 * t388;
-  const double t462 = t456 + t457 + t460 - dt * t343 * t371 * t458 * (1.0 / 6.0)
-      - dt * t343 * t374 * t459 * (1.0 / 6.0)
-      - dt * t343 * t373 * t461 * (1.0 / 6.0);
-  const double t466 = t433 + t442 - t443;
-  const double t467 = ew1 * t362 * t388;
-  const double t468 = ew1 * t362 * t381;
-  const double t469 = t467 + t468;
-  const double t470 = t343 * t469 * (1.0 / 2.0);
-  const double t471 = t384 * t432;
-  const double t472 = ew2 * t381;
-  const double t479 = ew3 * t388;
-  const double t473 = t472 - t479;
-  const double t474 = -t433 + t448 + t449;
-  const double t475 = dt * t343 * t346 * t366 * t398 * (1.0 / 3.0);
-  const double t476 = dt * t346 * t347 * t366;
-  const double t477 = ew2 * ew3 * t381;
-  const double t492 = t388 * t435;
-  const double t478 = t471 + t477 - t492;
-  const double t480 = t472 - t479;
-  const double t481 = ew1 * ew3 * t381;
-  const double t482 = ew1 * ew2 * t388;
-  const double t483 = t471 + t481 + t482;
-  const double t484 = ew2 * ew3 * t388;
-  const double t486 = t381 * t441;
-  const double t485 = t471 + t484 - t486;
-  const double t487 = t394 * t441;
-  const double t488 = ew2 * ew3 * t397;
-  const double t489 = t444 + t487 + t488;
-  const double t490 = t397 * t435;
-  const double t491 = ew2 * ew3 * t394;
-  const double t493 = ew1 * t381 * t397;
-  const double t541 = ew1 * t388 * t394;
-  const double t494 = t493 - t541;
-  const double t495 = t343 * t494 * (1.0 / 2.0);
-  const double t496 = ew1 * ew2 * t397;
-  const double t527 = ew1 * ew3 * t394;
-  const double t497 = t444 + t496 - t527;
-  const double t498 = ew2 * ew3 * t381 * (1.0 / 2.0);
-  const double t499 = ew1 * t343 * t381 * (1.0 / 2.0);
-  const double t500 = t384 * t432 * (1.0 / 2.0);
-  const double t501 = ew2 * ew3 * t388 * (1.0 / 2.0);
-  const double t502 = n_bw1 * n_bw1;
-  const double t503 = n_bw3 * n_bw3;
-  const double t504 = t343 * t347 * t413 * (1.0 / 2.0);
-  const double t505 = t343 * t354 * t414 * (1.0 / 2.0);
-  const double t506 = t397 * t397;
-  const double t507 = t390 * t390;
-  const double t508 = t343 * t355 * t415 * (1.0 / 2.0);
-  const double t509 = t394 * t394;
-  const double t510 = t504 + t505 + t508 - dt * t343 * t373 * t506 * (1.0 / 6.0)
-      - dt * t343 * t371 * t509 * (1.0 / 6.0)
-      - dt * t343 * t374 * t507 * (1.0 / 6.0);
-  const double t512 = -t444 + t490 + t491;
-  const double t513 = t397 * t437 * (1.0 / 2.0);
-  const double t514 = t362 * t394 * t429;
-  const double t515 = dt * t362 * t397;
-  const double t516 = t362 * t489 * (1.0 / 2.0);
-  const double t517 = t394 * t466 * (1.0 / 2.0);
-  const double t518 = t362 * t397 * t429;
-  const double t519 = t516 + t517 + t518;
-  const double t520 = dt * t362 * t394;
-  const double t521 = t440 + t520 - dt * t343 * t519 * (1.0 / 3.0);
-  const double t522 = t371 * t521;
-  const double t523 = t362 * t447;
-  const double t524 = t390 * t425;
-  const double t525 = t523 + t524;
-  const double t526 = t343 * t525 * (1.0 / 2.0);
-  const double t528 = t425 * t447;
-  const double t529 = t390 * t474 * (1.0 / 2.0);
-  const double t530 = t528 + t529 - t362 * t497 * (1.0 / 2.0);
-  const double t531 = dt * t343 * t530 * (1.0 / 3.0);
-  const double t532 = dt * t362 * t390;
-  const double t533 = t526 + t531 + t532;
-  const double t534 = t374 * t533;
-  const double t535 = dt * t343 * t345 * t370 * t400 * (1.0 / 3.0);
-  const double t536 = dt * t345 * t355 * t370;
-  const double t537 = t381 * t489 * (1.0 / 2.0);
-  const double t538 = t388 * t397 * t429;
-  const double t539 = t537 + t538 - t394 * t485 * (1.0 / 2.0);
-  const double t540 = dt * t343 * t539 * (1.0 / 3.0);
-  const double t542 = t495 + t540 - dt * t381 * t394;
-  const double t543 = t388 * t512 * (1.0 / 2.0);
-  const double t544 = t381 * t394 * t429;
-  const double t545 = t543 + t544 - t397 * t478 * (1.0 / 2.0);
-  const double t546 = dt * t343 * t545 * (1.0 / 3.0);
-  const double t547 = t495 + t546 - dt * t388 * t397;
-  const double t548 = t373 * t547;
-  const double t549 = t384 * t447;
-  const double t550 = t549 - t390 * t473;
-  const double t551 = t343 * t550 * (1.0 / 2.0);
-  const double t552 = t384 * t497 * (1.0 / 2.0);
-  const double t553 = t390 * t483 * (1.0 / 2.0);
-  const double t554 = t447 * t473;
-  const double t555 = t552 + t553 + t554;
-  const double t556 = dt * t384 * t390;
-  const double t557 = t551 + t556 - dt * t343 * t555 * (1.0 / 3.0);
-  const double t558 = dt * t343 * t367 * t372 * t399 * (1.0 / 3.0);
-  const double t559 = dt * t354 * t367 * t372;
-  const double t560 = t548 + t558 + t559 - t371 * t542 - t374 * t557
-      - dt * t347 * t366 * t369 - dt * t355 * t370 * t376
-      - dt * t343 * t366 * t369 * t398 * (1.0 / 3.0)
-      - dt * t343 * t370 * t376 * t400 * (1.0 / 3.0);
-  const double t561 = ew1 * t343 * t394 * t397;
-  const double t562 = ew1 * t343 * t397 * (1.0 / 2.0);
-  const double t563 = n_bw2 * n_bw2;
-  const double t564 = dt * t343 * t362 * t374 * (1.0 / 6.0);
-  const double t565 = dt * t343 * t374 * t390 * (1.0 / 6.0);
-  const double t566 = ew1 * ew2 * t362 * (1.0 / 2.0);
-  const double t567 = -t433 + t450 + t566;
-  const double t568 = dt * t343 * t567 * (1.0 / 3.0);
-  const double t569 = t343 * t425 * (1.0 / 2.0);
-  const double t570 = t451 + t568 + t569;
-  const double t571 = dt * t343 * t362 * t373 * t432 * (1.0 / 6.0);
-  const double t572 = dt * t343 * t362 * t371 * t432 * (1.0 / 6.0);
-  const double t573 = t571 + t572 - t374 * t570;
-  const double t574 = ew1 * ew2 * t397 * (1.0 / 2.0);
-  const double t575 = t444 + t574 - ew1 * ew3 * t394 * (1.0 / 2.0);
-  const double t576 = t343 * t447 * (1.0 / 2.0);
-  const double t577 = dt * t390;
-  const double t578 = t576 + t577 - dt * t343 * t575 * (1.0 / 3.0);
-  const double t579 = dt * t343 * t371 * t394 * t432 * (1.0 / 6.0);
-  const double t580 = t579 - t374 * t578
-      - dt * t343 * t373 * t397 * t432 * (1.0 / 6.0);
-  const double t581 = dt * t343 * t373 * t388 * (1.0 / 6.0);
-  const double t582 = t362 * t432 * (1.0 / 2.0);
-  const double t583 = ew2 * ew3 * t362 * (1.0 / 2.0);
-  const double t584 = t362 * t429;
-  const double t585 = t583 + t584;
-  const double t586 = ew3 * t473;
-  const double t587 = ew1 * ew2 * t384 * (1.0 / 2.0);
-  const double t588 = t586 + t587;
-  const double t589 = dt * t343 * t588 * (1.0 / 3.0);
-  const double t590 = t374 * (t589 - ew3 * t343 * t384 * (1.0 / 2.0));
-  const double t591 = t388 * t429;
-  const double t592 = t498 + t591;
-  const double t593 = dt * t343 * t592 * (1.0 / 3.0);
-  const double t594 = t499 + t593;
-  const double t595 = -t492 + t498 + t500;
-  const double t596 = dt * t343 * t595 * (1.0 / 3.0);
-  const double t597 = dt * t388;
-  const double t598 = -t499 + t596 + t597;
-  const double t599 = t590 - t371 * t594 - t373 * t598;
-  const double t600 = t397 * t429;
-  const double t601 = ew2 * ew3 * t394 * (1.0 / 2.0);
-  const double t602 = ew1 * t343 * t394 * (1.0 / 2.0);
-  const double t603 = ew3 * t447;
-  const double t604 = t603 - ew1 * ew2 * t390 * (1.0 / 2.0);
-  const double t605 = dt * t343 * t604 * (1.0 / 3.0);
-  const double t606 = ew3 * t343 * t390 * (1.0 / 2.0);
-  const double t607 = t605 + t606;
-  const double t608 = t374 * t607;
-  const double t609 = t390 * t432 * (1.0 / 2.0);
-  const double t610 = dt * t397;
-  const double t611 = t430 * (1.0 / 2.0);
-  const double t612 = t431 * (1.0 / 2.0);
-  const double t613 = t611 + t612;
-  const double t614 = ew1 * t343 * (1.0 / 2.0);
-  const double t615 = dt * t343 * t362 * t371 * (1.0 / 6.0);
-  const double t616 = dt * t343 * t371 * t381 * (1.0 / 6.0);
-  const double t617 = dt * t343 * t371 * t394 * (1.0 / 6.0);
-  const double t618 = ew2 * t425;
-  const double t619 = t450 + t618;
-  const double t620 = dt * t343 * t619 * (1.0 / 3.0);
-  const double t621 = ew2 * t343 * t362 * (1.0 / 2.0);
-  const double t622 = t620 + t621;
-  const double t623 = dt * t343 * t585 * (1.0 / 3.0);
-  const double t624 = t381 * t429;
-  const double t625 = t501 + t624;
-  const double t626 = dt * t343 * t625 * (1.0 / 3.0);
-  const double t627 = ew1 * t343 * t388 * (1.0 / 2.0);
-  const double t628 = ew2 * t473;
-  const double t629 = t628 - ew1 * ew3 * t384 * (1.0 / 2.0);
-  const double t630 = dt * t343 * t629 * (1.0 / 3.0);
-  const double t631 = t630 - ew2 * t343 * t384 * (1.0 / 2.0);
-  const double t632 = -t486 + t500 + t501;
-  const double t633 = dt * t343 * t632 * (1.0 / 3.0);
-  const double t634 = dt * t381;
-  const double t635 = t627 + t633 + t634;
-  const double t636 = ew2 * t447;
-  const double t637 = ew1 * ew3 * t390 * (1.0 / 2.0);
-  const double t638 = t636 + t637;
-  const double t639 = dt * t343 * t638 * (1.0 / 3.0);
-  const double t640 = ew2 * t343 * t390 * (1.0 / 2.0);
-  const double t641 = t639 + t640;
-  const double t642 = t394 * t429;
-  const double t643 = ew2 * ew3 * t397 * (1.0 / 2.0);
-  const double t644 = t487 + t609 + t643;
-  const double t645 = dt * t343 * t644 * (1.0 / 3.0);
-  const double t646 = t562 + t645 - dt * t394;
-  const double t647 = t371 * t646;
-  const double t648 = ew2 * t343 * (1.0 / 2.0);
-  const double t649 = dt * ew1 * ew3 * t343 * (1.0 / 6.0);
-  const double t650 = t648 + t649;
-  const double t651 = t374 * t650;
-  const double t652 = t651 - dt * t343 * t371 * t613 * (1.0 / 3.0);
-  const double t653 = dt * ew2 * ew3 * t343 * (1.0 / 6.0);
-  const double t654 = t614 + t653;
-  const double t655 = t371 * t654;
-  const double t656 = dt * t343 * t397 * t563 * (1.0 / 6.0);
-  const double t657 = dt * ew1 * t343 * t563 * (1.0 / 6.0);
-  const double t658 = dt * t343 * t369 * t398 * (1.0 / 6.0);
-  const double t659 = t343 * t369 * t398 * (1.0 / 2.0);
-  const double t660 = dt * t343 * t344 * t399 * (1.0 / 6.0);
-  const double t661 = t343 * t344 * t399 * (1.0 / 2.0);
-  const double t662 = dt * t343 * t376 * t400 * (1.0 / 6.0);
-  const double t663 = t343 * t376 * t400 * (1.0 / 2.0);
-
   enum {
     idxstartcorr_p = msf_tmp::GetStartIndexInCorrection<StateSequence_T,
         StateDefinition_T::p>::value,
@@ -391,332 +52,59 @@ void CalcQCore(const double dt, const Eigen::Quaternion<double> & q,
         StateDefinition_T::b_a>::value
   };
 
-  Qd(idxstartcorr_p + 0, idxstartcorr_p + 0) = dt * t343 * t347 * t361
-      * (1.0 / 3.0) + dt * t343 * t354 * t359 * (1.0 / 3.0)
-      + dt * t343 * t355 * t360 * (1.0 / 3.0);
-  Qd(idxstartcorr_p + 0, idxstartcorr_p + 1) = t375
-      - dt * t343 * t345 * t355 * (t358 - q3 * q4 * 2.0) * (1.0 / 3.0)
-      - dt * t343 * t344 * t354 * t367 * (1.0 / 3.0);
-  Qd(idxstartcorr_p + 0, idxstartcorr_p + 2) = t402;
-  Qd(idxstartcorr_p + 0, idxstartcorr_v + 0) = t419;
-  Qd(idxstartcorr_p + 0, idxstartcorr_v + 1) = t420;
-  Qd(idxstartcorr_p + 0, idxstartcorr_v + 2) = t408;
-  Qd(idxstartcorr_p + 0, idxstartcorr_q + 0) = t564;
-  Qd(idxstartcorr_p + 0, idxstartcorr_q + 2) = t615;
-  Qd(idxstartcorr_p + 0, idxstartcorr_b_a + 0) = dt * t343 * t346 * t398
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 0, idxstartcorr_b_a + 1) = t660;
-  Qd(idxstartcorr_p + 0, idxstartcorr_b_a + 2) = dt * t343 * t345 * t400
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_p + 0) = t375
-      - dt * t343 * t344 * t354 * t367 * (1.0 / 3.0)
-      - dt * t343 * t345 * t355 * t376 * (1.0 / 3.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_p + 1) = dt * t343 * t347 * t378
-      * (1.0 / 3.0) + dt * t343 * t355 * t379 * (1.0 / 3.0)
-      + dt * t343 * t354 * t385 * (1.0 / 3.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_p + 2) = t404;
-  Qd(idxstartcorr_p + 1, idxstartcorr_v + 0) = t377 + t455
-      - t343 * t344 * t354 * t367 * (1.0 / 2.0)
-      - t343 * t345 * t355 * t376 * (1.0 / 2.0)
-      - dt * t343 * t362 * t371 * t381 * (1.0 / 6.0)
-      - dt * t343 * t362 * t373 * t388 * (1.0 / 6.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_v + 1) = t462;
-  Qd(idxstartcorr_p + 1, idxstartcorr_v + 2) = t412;
-  Qd(idxstartcorr_p + 1, idxstartcorr_q + 0) = dt * t343 * t374 * t384
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_q + 1) = t581;
-  Qd(idxstartcorr_p + 1, idxstartcorr_q + 2) = t616;
-  Qd(idxstartcorr_p + 1, idxstartcorr_b_a + 0) = dt * t343 * t366 * t398
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_b_a + 1) = dt * t343 * t367 * t399
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_b_a + 2) = t662;
-  Qd(idxstartcorr_p + 2, idxstartcorr_p + 0) = t402;
-  Qd(idxstartcorr_p + 2, idxstartcorr_p + 1) = t404;
-  Qd(idxstartcorr_p + 2, idxstartcorr_p + 2) = dt * t343 * t347 * t413
-      * (1.0 / 3.0) + dt * t343 * t354 * t414 * (1.0 / 3.0)
-      + dt * t343 * t355 * t415 * (1.0 / 3.0);
-  Qd(idxstartcorr_p + 2, idxstartcorr_v + 0) = t408;
-  Qd(idxstartcorr_p + 2, idxstartcorr_v + 1) = t412;
-  Qd(idxstartcorr_p + 2, idxstartcorr_v + 2) = t510;
-  Qd(idxstartcorr_p + 2, idxstartcorr_q + 0) = t565;
-  Qd(idxstartcorr_p + 2, idxstartcorr_q + 1) = dt * t343 * t373 * t397
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 2, idxstartcorr_q + 2) = t617;
-  Qd(idxstartcorr_p + 2, idxstartcorr_b_a + 0) = t658;
-  Qd(idxstartcorr_p + 2, idxstartcorr_b_a + 1) = dt * t343 * t372 * t399
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 2, idxstartcorr_b_a + 2) = dt * t343 * t370 * t400
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_p + 0) = t419;
-  Qd(idxstartcorr_v + 0, idxstartcorr_p + 1) = t420;
-  Qd(idxstartcorr_v + 0, idxstartcorr_p + 2) = t408;
-  Qd(idxstartcorr_v + 0, idxstartcorr_v + 0) =
-      t374
-          * (t428 + t343 * t362 * t425
-              + dt * t343 * (t362 * (t448 + t449 - t362 * t432) + t425 * t425)
-                  * (1.0 / 3.0))
-          + t373
-              * (t428 - t434
-                  + dt * t343 * (t365 * t429 - t362 * t437) * (1.0 / 3.0))
-          + t371
-              * (t428 + t434
-                  + dt * t343
-                      * (t365 * t429 - t362 * (t433 + t442 - ew2 * ew3 * t362))
-                      * (1.0 / 3.0)) + dt * t347 * t361 + dt * t354 * t359
-          + dt * t355 * t360 + dt * t343 * t359 * t399 * (1.0 / 3.0)
-          + dt * t343 * t361 * t398 * (1.0 / 3.0)
-          + dt * t343 * t360 * t400 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_v + 1) = t475 + t476
-      - dt * t344 * t354 * t367 - dt * t345 * t355 * t376
-      - dt * t343 * t344 * t367 * t399 * (1.0 / 3.0)
-      - dt * t343 * t345 * t376 * t400 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_v + 2) = t522 + t534 + t535 + t536
-      - t373
-          * (t440 + t515
-              - dt * t343
-                  * (t513 + t514
-                      + t362 * (t490 + t491 - t390 * t432) * (1.0 / 2.0))
-                  * (1.0 / 3.0)) - dt * t346 * t347 * t369
-      - dt * t344 * t354 * t372 - dt * t343 * t346 * t369 * t398 * (1.0 / 3.0)
-      - dt * t343 * t344 * t372 * t399 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_q + 0) = t573;
-  Qd(idxstartcorr_v + 0, idxstartcorr_q + 2) = -t371
-      * (t451 + t452
-          - dt * t343 * (t442 + t582 - ew2 * ew3 * t362 * (1.0 / 2.0))
-              * (1.0 / 3.0)) - t374 * t622
-      + t373 * (t452 - dt * t343 * t585 * (1.0 / 3.0));
-  Qd(idxstartcorr_v + 0, idxstartcorr_b_w + 0) = dt * t343 * t362 * t502
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_b_w + 2) = dt * t343 * t362 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_b_a + 0) = t343 * t346 * t398
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_b_a + 1) = t661;
-  Qd(idxstartcorr_v + 0, idxstartcorr_b_a + 2) = t343 * t345 * t400
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_p + 0) = t377 - t453 - t454 + t455
-      - dt * t343 * t362 * t371 * t381 * (1.0 / 6.0)
-      - dt * t343 * t362 * t373 * t388 * (1.0 / 6.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_p + 1) = t462;
-  Qd(idxstartcorr_v + 1, idxstartcorr_p + 2) = t412;
-  Qd(idxstartcorr_v + 1, idxstartcorr_v + 0) = t475 + t476
-      - t374
-          * (t343 * (t384 * t425 - t362 * t473) * (1.0 / 2.0)
-              - dt * t343
-                  * (t362 * t483 * (1.0 / 2.0) - t384 * t474 * (1.0 / 2.0)
-                      + t425 * t473) * (1.0 / 3.0) + dt * t362 * t384)
-      + t371
-          * (t470 + dt * t362 * t381
-              + dt * t343
-                  * (t362 * t485 * (1.0 / 2.0) - t381 * t466 * (1.0 / 2.0)
-                      + t362 * t388 * t429) * (1.0 / 3.0))
-      + t373
-          * (-t470 + dt * t362 * t388
-              + dt * t343
-                  * (t388 * t437 * (-1.0 / 2.0) + t362 * t478 * (1.0 / 2.0)
-                      + t362 * t381 * t429) * (1.0 / 3.0))
-      - dt * t344 * t354 * t367 - dt * t345 * t355 * t376
-      - dt * t343 * t344 * t367 * t399 * (1.0 / 3.0)
-      - dt * t343 * t345 * t376 * t400 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_v + 1) = -t374
-      * (-dt * t459 + dt * t343 * (t384 * t483 - t480 * t480) * (1.0 / 3.0)
-          + t343 * t384 * t473)
-      + t373
-          * (dt * t461 + dt * t343 * (t388 * t478 + t429 * t458) * (1.0 / 3.0)
-              - ew1 * t343 * t381 * t388)
-      + t371
-          * (dt * t458 + dt * t343 * (t381 * t485 + t429 * t461) * (1.0 / 3.0)
-              + ew1 * t343 * t381 * t388) + dt * t347 * t378 + dt * t355 * t379
-      + dt * t354 * t385 + dt * t343 * t378 * t398 * (1.0 / 3.0)
-      + dt * t343 * t385 * t399 * (1.0 / 3.0)
-      + dt * t343 * t379 * t400 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_v + 2) = t560;
-  Qd(idxstartcorr_v + 1, idxstartcorr_q + 0) = -t374
-      * (-dt * t384 + t343 * t473 * (1.0 / 2.0)
-          + dt * t343
-              * (t471 + ew1 * ew2 * t388 * (1.0 / 2.0)
-                  + ew1 * ew3 * t381 * (1.0 / 2.0)) * (1.0 / 3.0))
-      + dt * t343 * t371 * t381 * t432 * (1.0 / 6.0)
-      + dt * t343 * t373 * t388 * t432 * (1.0 / 6.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_q + 1) = t599;
-  Qd(idxstartcorr_v + 1, idxstartcorr_q + 2) = -t374 * t631 - t371 * t635
-      - t373 * (t626 - ew1 * t343 * t388 * (1.0 / 2.0));
-  Qd(idxstartcorr_v + 1, idxstartcorr_b_w + 0) = dt * t343 * t384 * t502
-      * (1.0 / 6.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_b_w + 1) = dt * t343 * t388 * t563
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_b_w + 2) = dt * t343 * t381 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_b_a + 0) = t343 * t366 * t398
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_b_a + 1) = t343 * t367 * t399
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_b_a + 2) = t663;
-  Qd(idxstartcorr_v + 2, idxstartcorr_p + 0) = t408;
-  Qd(idxstartcorr_v + 2, idxstartcorr_p + 1) = t412;
-  Qd(idxstartcorr_v + 2, idxstartcorr_p + 2) = t510;
-  Qd(idxstartcorr_v + 2, idxstartcorr_v + 0) = t522 + t534 + t535 + t536
-      - t373
-          * (t440 + t515
-              - dt * t343 * (t513 + t514 + t362 * t512 * (1.0 / 2.0))
-                  * (1.0 / 3.0)) - dt * t346 * t347 * t369
-      - dt * t344 * t354 * t372 - dt * t343 * t346 * t369 * t398 * (1.0 / 3.0)
-      - dt * t343 * t344 * t372 * t399 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 2, idxstartcorr_v + 1) = t560;
-  Qd(idxstartcorr_v + 2, idxstartcorr_v + 2) = -t371
-      * (t561 - dt * t509
-          + dt * t343 * (t394 * t489 - t429 * t506) * (1.0 / 3.0))
-      + t373
-          * (t561 + dt * t506
-              - dt * t343 * (t397 * t512 - t429 * t509) * (1.0 / 3.0))
-      + t374
-          * (dt * t507 - dt * t343 * (t390 * t497 - t447 * t447) * (1.0 / 3.0)
-              + t343 * t390 * t447) + dt * t347 * t413 + dt * t354 * t414
-      + dt * t355 * t415 + dt * t343 * t398 * t413 * (1.0 / 3.0)
-      + dt * t343 * t399 * t414 * (1.0 / 3.0)
-      + dt * t343 * t400 * t415 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 2, idxstartcorr_q + 0) = t580;
-  Qd(idxstartcorr_v + 2, idxstartcorr_q + 1) = t608
-      + t371
-          * (dt * t343 * (t600 - ew2 * ew3 * t394 * (1.0 / 2.0)) * (1.0 / 3.0)
-              - ew1 * t343 * t394 * (1.0 / 2.0))
-      + t373
-          * (t602 + t610
-              - dt * t343 * (t490 + t601 - t390 * t432 * (1.0 / 2.0))
-                  * (1.0 / 3.0));
-  Qd(idxstartcorr_v + 2, idxstartcorr_q + 2) = t647 - t374 * t641
-      - t373
-          * (t562
-              + dt * t343 * (t642 - ew2 * ew3 * t397 * (1.0 / 2.0))
-                  * (1.0 / 3.0));
-  Qd(idxstartcorr_v + 2, idxstartcorr_b_w + 0) = dt * t343 * t390 * t502
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 2, idxstartcorr_b_w + 1) = t656;
-  Qd(idxstartcorr_v + 2, idxstartcorr_b_w + 2) = dt * t343 * t394 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 2, idxstartcorr_b_a + 0) = t659;
-  Qd(idxstartcorr_v + 2, idxstartcorr_b_a + 1) = t343 * t372 * t399
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_v + 2, idxstartcorr_b_a + 2) = t343 * t370 * t400
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_q + 0, idxstartcorr_p + 0) = t564;
-  Qd(idxstartcorr_q + 0, idxstartcorr_p + 2) = t565;
-  Qd(idxstartcorr_q + 0, idxstartcorr_v + 0) = t573;
-  Qd(idxstartcorr_q + 0, idxstartcorr_v + 2) = t580;
-  Qd(idxstartcorr_q + 0, idxstartcorr_q + 0) = t374
-      * (dt - dt * t343 * t432 * (1.0 / 3.0)) + dt * t343 * t502 * (1.0 / 3.0);
-  Qd(idxstartcorr_q + 0, idxstartcorr_q + 2) = t652;
-  Qd(idxstartcorr_q + 0, idxstartcorr_b_w + 0) = t343 * t502 * (-1.0 / 2.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_p + 0) = dt * t343 * t362 * t373
-      * (1.0 / 6.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_p + 1) = t581;
-  Qd(idxstartcorr_q + 1, idxstartcorr_p + 2) = dt * t343 * t373 * t397
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_v + 0) = -t371 * (t452 + t623)
-      - t374
-          * (dt * t343 * (t566 - ew3 * t425) * (1.0 / 3.0)
-              - ew3 * t343 * t362 * (1.0 / 2.0))
-      + t373 * (-t451 + t452 + dt * t343 * (t436 + t582 - t583) * (1.0 / 3.0));
-  Qd(idxstartcorr_q + 1, idxstartcorr_v + 1) = t599;
-  Qd(idxstartcorr_q + 1, idxstartcorr_v + 2) = t608
-      + t373 * (t602 + t610 - dt * t343 * (t490 + t601 - t609) * (1.0 / 3.0))
-      - t371 * (t602 - dt * t343 * (t600 - t601) * (1.0 / 3.0));
-  Qd(idxstartcorr_q + 1, idxstartcorr_q + 0) = -t374
-      * (ew3 * t343 * (1.0 / 2.0) - dt * ew1 * ew2 * t343 * (1.0 / 6.0))
-      - dt * t343 * t373 * t613 * (1.0 / 3.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_q + 1) = t373
-      * (dt - dt * t343 * t435 * (1.0 / 3.0)) + dt * t343 * t563 * (1.0 / 3.0)
-      + dt * t343 * t371 * t429 * (1.0 / 3.0)
-      + dt * t343 * t374 * t431 * (1.0 / 3.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_q + 2) = t655
-      - t373 * (t614 - dt * ew2 * ew3 * t343 * (1.0 / 6.0))
-      - dt * ew2 * ew3 * t343 * t374 * (1.0 / 3.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_b_w + 0) = dt * ew3 * t343 * t502
-      * (1.0 / 6.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_b_w + 1) = t343 * t563 * (-1.0 / 2.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_b_w + 2) = dt * ew1 * t343 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_q + 2, idxstartcorr_p + 0) = t615;
-  Qd(idxstartcorr_q + 2, idxstartcorr_p + 1) = t616;
-  Qd(idxstartcorr_q + 2, idxstartcorr_p + 2) = t617;
-  Qd(idxstartcorr_q + 2, idxstartcorr_v + 0) = -t374 * t622
-      - t371 * (t451 + t452 - dt * t343 * (t442 + t582 - t583) * (1.0 / 3.0))
-      + t373 * (t452 - t623);
-  Qd(idxstartcorr_q + 2, idxstartcorr_v + 1) = -t374 * t631 - t371 * t635
-      - t373 * (t626 - t627);
-  Qd(idxstartcorr_q + 2, idxstartcorr_v + 2) = t647 - t374 * t641
-      - t373 * (t562 + dt * t343 * (t642 - t643) * (1.0 / 3.0));
-  Qd(idxstartcorr_q + 2, idxstartcorr_q + 0) = t652;
-  Qd(idxstartcorr_q + 2, idxstartcorr_q + 1) = t655 - t373 * (t614 - t653)
-      - dt * ew2 * ew3 * t343 * t374 * (1.0 / 3.0);
-  Qd(idxstartcorr_q + 2, idxstartcorr_q + 2) = t371
-      * (dt - dt * t343 * t441 * (1.0 / 3.0)) + dt * t343 * t503 * (1.0 / 3.0)
-      + dt * t343 * t373 * t429 * (1.0 / 3.0)
-      + dt * t343 * t374 * t430 * (1.0 / 3.0);
-  Qd(idxstartcorr_q + 2, idxstartcorr_b_w + 0) = dt * ew2 * t343 * t502
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_q + 2, idxstartcorr_b_w + 1) = t657;
-  Qd(idxstartcorr_q + 2, idxstartcorr_b_w + 2) = t343 * t503 * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_w + 0, idxstartcorr_v + 0) = dt * t343 * t362 * t502
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 0, idxstartcorr_v + 2) = dt * t343 * t390 * t502
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 0, idxstartcorr_q + 0) = t343 * t502 * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_w + 0, idxstartcorr_q + 2) = dt * ew2 * t343 * t502
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 0, idxstartcorr_b_w + 0) = dt * t502;
-  Qd(idxstartcorr_b_w + 1, idxstartcorr_v + 0) = dt * t343 * t362 * t563
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 1, idxstartcorr_v + 1) = dt * t343 * t388 * t563
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 1, idxstartcorr_v + 2) = t656;
-  Qd(idxstartcorr_b_w + 1, idxstartcorr_q + 1) = t343 * t563 * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_w + 1, idxstartcorr_q + 2) = t657;
-  Qd(idxstartcorr_b_w + 1, idxstartcorr_b_w + 1) = dt * t563;
-  Qd(idxstartcorr_b_w + 2, idxstartcorr_v + 0) = dt * t343 * t362 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 2, idxstartcorr_v + 1) = dt * t343 * t381 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 2, idxstartcorr_v + 2) = dt * t343 * t394 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 2, idxstartcorr_q + 1) = dt * ew1 * t343 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 2, idxstartcorr_q + 2) = t343 * t503 * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_w + 2, idxstartcorr_b_w + 2) = dt * t503;
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_p + 0) = dt * t343 * t346 * t398
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_p + 1) = dt * t343 * t366 * t398
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_p + 2) = t658;
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_v + 0) = t343 * t346 * t398
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_v + 1) = t343 * t366 * t398
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_v + 2) = t659;
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_b_a + 0) = dt * t398;
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_p + 0) = t660;
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_p + 1) = dt * t343 * t367 * t399
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_p + 2) = dt * t343 * t372 * t399
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_v + 0) = t661;
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_v + 1) = t343 * t367 * t399
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_v + 2) = t343 * t372 * t399
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_b_a + 1) = dt * t399;
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_p + 0) = dt * t343 * t345 * t400
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_p + 1) = t662;
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_p + 2) = dt * t343 * t370 * t400
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_v + 0) = t343 * t345 * t400
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_v + 1) = t663;
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_v + 2) = t343 * t370 * t400
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_b_a + 2) = dt * t400;
+  typedef Eigen::Matrix<double, 3, 3> Matrix3;
+  typedef Eigen::Matrix<double, DerivedQ::RowsAtCompileTime, 12> NoiseTransition_T;
+
+  const Matrix3 eye3 = Matrix3::Identity();
+  const Matrix3 w_sk = Skew(ew);
+  const Matrix3 C_eq = q.toRotationMatrix();
+  const Matrix3 Ca3 = C_eq * Skew(ea);
+
+  // Spectral densities of accelerometer, gyro, gyro bias and acc bias noise.
+  Eigen::Matrix<double, 12, 1> Qc;
+  Qc << n_a.cwiseProduct(n_a), n_w.cwiseProduct(n_w), n_bw.cwiseProduct(n_bw),
+      n_ba.cwiseProduct(n_ba);
+
+  // Qd is the integral of Fd(t) * Gc * Qc * Gc' * Fd(t)' for t from 0 to dt.
+  // With three nodes the quadrature (Gauss-Legendre) is exact up to t^5.
+  const double nodes[3] = { 0.5 - std::sqrt(0.15), 0.5, 0.5 + std::sqrt(0.15) };
+  const double weights[3] = { 5.0 / 18.0, 8.0 / 18.0, 5.0 / 18.0 };
+
+  Qd.setZero();
+  for (int i = 0; i < 3; ++i) {
+    const double t = nodes[i] * dt;
+    const double t_p2_2 = t * t * 0.5;
+    const double t_p3_6 = t_p2_2 * t / 3.0;
+    const double t_p4_24 = t_p3_6 * t * 0.25;
+    const double t_p5_120 = t_p4_24 * t * 0.2;
+
+    // Blocks of Fd(t), see PredictProcessCovariance.
+    const Matrix3 A = Ca3
+        * (-t_p2_2 * eye3 + t_p3_6 * w_sk - t_p4_24 * w_sk * w_sk);
+    const Matrix3 B = Ca3
+        * (t_p3_6 * eye3 - t_p4_24 * w_sk + t_p5_120 * w_sk * w_sk);
+    const Matrix3 E = eye3 - t * w_sk + t_p2_2 * w_sk * w_sk;
+    const Matrix3 F = -t * eye3 + t_p2_2 * w_sk - t_p3_6 * (w_sk * w_sk);
+
+    NoiseTransition_T FG = NoiseTransition_T::Zero();  // Fd(t) * Gc.
+    // Accelerometer noise.
+    FG.template block<3, 3>(idxstartcorr_p, 0) = -C_eq * t;
+    FG.template block<3, 3>(idxstartcorr_v, 0) = -C_eq;
+    // Gyro noise.
+    FG.template block<3, 3>(idxstartcorr_p, 3) = -A;
+    FG.template block<3, 3>(idxstartcorr_v, 3) = -Ca3 * F;
+    FG.template block<3, 3>(idxstartcorr_q, 3) = -E;
+    // Gyro bias noise.
+    FG.template block<3, 3>(idxstartcorr_p, 6) = B;
+    FG.template block<3, 3>(idxstartcorr_v, 6) = -A;
+    FG.template block<3, 3>(idxstartcorr_q, 6) = F;
+    FG.template block<3, 3>(idxstartcorr_b_w, 6) = eye3;
+    // Accelerometer bias noise.
+    FG.template block<3, 3>(idxstartcorr_p, 9) = -C_eq * t_p2_2;
+    FG.template block<3, 3>(idxstartcorr_v, 9) = -C_eq * t;
+    FG.template block<3, 3>(idxstartcorr_b_a, 9) = eye3;
 
+    Qd += weights[i] * dt * FG * Qc.asDiagonal() * FG.transpose();
+  }
 }
 #endif  // CALCQ_H_
-- 
2.43.0


From c9c585a18a094d667e06c9603552e52d870c2a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:46 +0000
Subject: [PATCH 27/37] fix: fuse measurements which share a state only once

A late measurement within 1 ms of the state of another one was applied to the
already corrected state, and the other one was then applied a second time.
---
 .../msf_core/implementation/msf_core_inl.h    | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 01780d1..cbb3a87 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -658,6 +658,37 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   typename measurementBufferT::iterator_T it_meas_end = MeasurementBuffer_
       .GetIteratorEnd();
 
+  // Measurements close to each other are applied to the same state. If a later
+  // one has been applied to the state of this one already, restart all of them
+  // from the state before, such that none is applied twice.
+  typename measurementBufferT::iterator_T it_later = it_meas;
+  ++it_later;
+  typename StateBuffer_T::iterator_T it_shared = stateBuffer_
+      .GetIteratorClosest(measurement->time);
+  if (it_later != it_meas_end
+      && fabs(it_shared->second->time - measurement->time) <= 0.001
+      && stateBuffer_.GetIteratorClosest(it_later->second->time) == it_shared) {
+    if (it_shared == stateBuffer_.GetIteratorBegin()) {
+      MeasurementBuffer_.Erase(it_meas);
+      return;  // There is no state before to restart from.
+    }
+    while (it_meas != MeasurementBuffer_.GetIteratorBegin()) {
+      typename measurementBufferT::iterator_T it_earlier = it_meas;
+      --it_earlier;
+      if (stateBuffer_.GetIteratorClosest(it_earlier->second->time)
+          != it_shared) {
+        break;
+      }
+      it_meas = it_earlier;
+    }
+    typename StateBuffer_T::iterator_T it_before = it_shared;
+    --it_before;
+    PropagateState(it_before->second, it_shared->second);
+    if (time_P_propagated > it_before->second->time) {
+      time_P_propagated = it_before->second->time;
+    }
+  }
+
   // No propagation if no update is applied.
   typename StateBuffer_T::iterator_T it_curr = stateBuffer_.GetIteratorEnd();
 
-- 
2.43.0


From a157ca5a0c6309761dcdcbb66a57698c5056a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:21 +0000
Subject: [PATCH 28/37] fix: do not initialize the external propagation with a
 non-finite state

---
 msf_core/include/msf_core/msf_sensormanagerROS.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/msf_sensormanagerROS.h b/msf_core/include/msf_core/msf_sensormanagerROS.h
index 8352cb0..6f7c619 100644
--- a/msf_core/include/msf_core/msf_sensormanagerROS.h
+++ b/msf_core/include/msf_core/msf_sensormanagerROS.h
@@ -203,7 +203,12 @@ struct MSF_SensorManagerROS : public msf_core::MSF_SensorManager<EKFState_T> {
             msgCorrect_.state));
 
     msgCorrect_.flag = sensor_fusion_comm::ExtEkf::initialization;
-    pubCorrect_.publish(msgCorrect_);
+    if (state->CheckStateForNumeric()) {
+      pubCorrect_.publish(msgCorrect_);
+    } else {
+      MSF_WARN_STREAM(
+          "Not initializing the external EKF, because state NaN/inf.");
+    }
   }
 
   virtual void PublishStateAfterPropagation(
-- 
2.43.0


From bf35b7460161ce1115ee31032a312640b436b807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:07 +0000
Subject: [PATCH 29/37] fix: start the pressure bias consistently with the
 initial position

The bias was computed from the camera's height instead of the height of the
IMU that the pressure measurement refers to, so with a lever arm between the
two the filter started with a pressure residual of the lever arm's height at
an initial bias uncertainty of a centimetre, and pulled the position off.
---
 .../src/pose_pressure_msf/pose_pressure_sensormanager.h    | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 5b57341..9d1e078 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -140,10 +140,6 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
     p_vc = pose_handler_->GetPositionMeasurement();
     q_vc = pose_handler_->GetAttitudeMeasurement();
 
-    b_p
-        << pose_handler_->GetPositionMeasurement()(2) / scale
-            - pressure_handler_->GetPressureMeasurement()(0);  /// Pressure drift state
-
             // Check if we have already input from the measurement sensor.
     if (!pose_handler_->ReceivedFirstMeasurement())
       MSF_WARN_STREAM(
@@ -171,6 +167,9 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
     p = q_wv.conjugate().toRotationMatrix() * p_vc / scale
         - q.toRotationMatrix() * p_ic;
 
+    // Pressure drift state.
+    b_p << p(2) - pressure_handler_->GetPressureMeasurement()(0);
+
     a_m = q.inverse() * g;			/// Initial acceleration.
 
     // Prepare init "measurement".
-- 
2.43.0


From 523dc26c4e540f1173f5feefbb0fb593a4f8fecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:07 +0000
Subject: [PATCH 30/37] fix: stopping a timer that is not running records
 nothing

It added the time since the last start, or since the epoch, as another sample.
---
 msf_timing/src/Timer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msf_timing/src/Timer.cc b/msf_timing/src/Timer.cc
index 7482420..fb6103f 100755
--- a/msf_timing/src/Timer.cc
+++ b/msf_timing/src/Timer.cc
@@ -96,6 +96,9 @@ void Timer::Start() {
 }
 
 void Timer::Stop() {
+  if (!timing_) {
+    return;
+  }
   std::chrono::time_point < std::chrono::system_clock > now =
       std::chrono::system_clock::now();
   double dt = static_cast<double>(std::chrono::duration_cast
-- 
2.43.0


From 6c6e81a95f0dad7d57ce8121b77205551c1326b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:07 +0000
Subject: [PATCH 31/37] fix: measure durations with the steady clock

A step of the system clock during a measurement was counted as part of the
measured interval, which could even become negative.
---
 msf_timing/include/msf_timing/Timer.h | 2 +-
 msf_timing/src/Timer.cc               | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msf_timing/include/msf_timing/Timer.h b/msf_timing/include/msf_timing/Timer.h
index 85049b9..def5404 100755
--- a/msf_timing/include/msf_timing/Timer.h
+++ b/msf_timing/include/msf_timing/Timer.h
@@ -140,7 +140,7 @@ class Timer {
   void Stop();
   bool IsTiming() const;
  private:
-  std::chrono::time_point<std::chrono::system_clock> time_;
+  std::chrono::time_point<std::chrono::steady_clock> time_;
 
   bool timing_;
   size_t handle_;
diff --git a/msf_timing/src/Timer.cc b/msf_timing/src/Timer.cc
index fb6103f..99eac22 100755
--- a/msf_timing/src/Timer.cc
+++ b/msf_timing/src/Timer.cc
@@ -92,15 +92,15 @@ Timer::~Timer() {
 
 void Timer::Start() {
   timing_ = true;
-  time_ = std::chrono::system_clock::now();
+  time_ = std::chrono::steady_clock::now();
 }
 
 void Timer::Stop() {
   if (!timing_) {
     return;
   }
-  std::chrono::time_point < std::chrono::system_clock > now =
-      std::chrono::system_clock::now();
+  std::chrono::time_point < std::chrono::steady_clock > now =
+      std::chrono::steady_clock::now();
   double dt = static_cast<double>(std::chrono::duration_cast
       < std::chrono::nanoseconds > (now - time_).count())
       * kNumSecondsPerNanosecond;
-- 
2.43.0


From 3592b6de788045e4d9b37dfc344f6d870835eef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:07 +0000
Subject: [PATCH 32/37] fix: start the maximum of the accumulator below all
 values

numeric_limits::min() of a floating point type is the smallest positive
value, so the maximum of samples that are zero or less was wrong.
---
 msf_timing/include/msf_timing/Timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_timing/include/msf_timing/Timer.h b/msf_timing/include/msf_timing/Timer.h
index def5404..950dd2a 100755
--- a/msf_timing/include/msf_timing/Timer.h
+++ b/msf_timing/include/msf_timing/Timer.h
@@ -38,7 +38,7 @@ class Accumulator {
         window_sum_(0),
         sum_(0),
         min_(std::numeric_limits < T > ::max()),
-        max_(std::numeric_limits < T > ::min()) {
+        max_(std::numeric_limits < T > ::lowest()) {
   }
 
   void Add(T sample) {
-- 
2.43.0


From fb10d16ad048857302801578249601b0926f767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:07 +0000
Subject: [PATCH 33/37] fix: show durations of a minute and more in full

Without SM_TIMING_SHOW_MINUTES the minutes were cut off, so that 75 s were
printed as 15 s.
---
 msf_timing/src/Timer.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/msf_timing/src/Timer.cc b/msf_timing/src/Timer.cc
index 99eac22..6c7d7ea 100755
--- a/msf_timing/src/Timer.cc
+++ b/msf_timing/src/Timer.cc
@@ -163,10 +163,16 @@ double Timing::GetHz(std::string const& tag) {
 }
 
 std::string Timing::SecondsToTimeString(double seconds) {
-  double secs = fmod(seconds, 60);
-  int minutes = (seconds / 60);
-  int hours = (seconds / 3600);
-  minutes = minutes - (hours * 60);
+  // Each unit holds what the larger units that are shown leave over.
+  double secs = seconds;
+#ifdef SM_TIMING_SHOW_HOURS
+  int hours = (secs / 3600);
+  secs -= hours * 3600;
+#endif
+#ifdef SM_TIMING_SHOW_MINUTES
+  int minutes = (secs / 60);
+  secs -= minutes * 60;
+#endif
 
   char buffer[256];
   snprintf(buffer, sizeof(buffer),
-- 
2.43.0


From 1f1aa297528fcefcee6abd4ac6ed73d8c60334de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:19 +0000
Subject: [PATCH 34/37] fix: find the previous measurement of a sensor in
 buffers of two and next to other sensors

GetPreviousMeasurement compared against an iterator before begin(), which for
a map of one or two entries is begin() itself, so the first relative
measurement after a start was dropped; and it stopped at measurements of other
sensors with the same time.
---
 .../msf_core/implementation/msf_core_inl.h     | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index cbb3a87..d730c21 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -791,18 +791,16 @@ MSF_Core<EKFState_T>::GetPreviousMeasurement(
     MSF_WARN_STREAM("GetPreviousMeasurement: Error invalid iterator at value");
     return MeasurementBuffer_.GetInvalid();
   }
-  --it;
-  typename measurementBufferT::iterator_T itbeforebegin = MeasurementBuffer_
-      .GetIteratorBeforeBegin();
-  while (it != itbeforebegin
-      && (it->second->time != time && it->second->sensorID_ != sensorID)) {
+  typename measurementBufferT::iterator_T itbegin = MeasurementBuffer_
+      .GetIteratorBegin();
+  while (it != itbegin) {
     --it;
+    if (it->second->sensorID_ == sensorID) {
+      return it->second;
+    }
   }
-  if (it == itbeforebegin) {
-    MSF_WARN_STREAM("GetPreviousMeasurement: Error hit before begin");
-    return MeasurementBuffer_.GetInvalid();
-  }
-  return it->second;
+  MSF_WARN_STREAM("GetPreviousMeasurement: Error hit before begin");
+  return MeasurementBuffer_.GetInvalid();
 }
 
 template<typename EKFState_T>
-- 
2.43.0


From 25650db764b9f3a429fa62756a1fefdefb76eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:04 +0000
Subject: [PATCH 35/37] fix: relative updates account for the updates of other
 sensors in between

The correlation of the two cloned states left out the corrections applied
between them, so fusing relative poses next to positions or pressures made the
covariance indefinite.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h   | 8 ++++++--
 .../include/msf_core/implementation/msf_measurement_inl.h | 2 ++
 msf_core/include/msf_core/msf_state.h                     | 2 ++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index d730c21..7614cd3 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -444,8 +444,11 @@ void MSF_Core<EKFState_T>::GetAccumulatedStateTransitionStochasticCloning(
   typedef Eigen::Matrix<double, MSF_Core<EKFState_T>::nErrorStatesAtCompileTime,
       MSF_Core<EKFState_T>::nErrorStatesAtCompileTime> F_type;
   F = F_type::Identity();
-  for (; it != itend; ++it) {
-    F = it->second->Fd * F;
+  while (it != itend) {
+    F = (it->second->Fd * F).eval();
+    ++it;
+    // Updates of other sensors in between change the correlation as well.
+    F = (it->second->Ud * F).eval();
   }
 }
 
@@ -546,6 +549,7 @@ void MSF_Core<EKFState_T>::PredictProcessCovariance(
   // TODO (slynen) Optim: Multiplication of F blockwise, using the fact that aux
   // states have no entries outside their block.
   state_new->P = Fd * state_old->P * Fd.transpose() + Qd;
+  state_new->Ud.setIdentity();  // No update is applied to this covariance yet.
 
   // Set time for best cov prop to now.
   time_P_propagated = state_new->time;
diff --git a/msf_core/include/msf_core/implementation/msf_measurement_inl.h b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
index 8db94b8..b5b96be 100644
--- a/msf_core/include/msf_core/implementation/msf_measurement_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
@@ -72,6 +72,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   const typename MSF_Core<EKFState_T>::ErrorStateCov KH =
       (MSF_Core<EKFState_T>::ErrorStateCov::Identity() - K * H_delayed);
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
+  state->Ud = (KH * state->Ud).eval();
 
   // Make sure P stays symmetric.
   P = (0.5 * (P + P.transpose())).eval();
@@ -116,6 +117,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   const typename MSF_Core<EKFState_T>::ErrorStateCov KH =
       (MSF_Core<EKFState_T>::ErrorStateCov::Identity() - K * H_delayed);
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
+  state->Ud = (KH * state->Ud).eval();
 
   // Make sure P stays symmetric.
   P = (0.5 * (P + P.transpose())).eval();
diff --git a/msf_core/include/msf_core/msf_state.h b/msf_core/include/msf_core/msf_state.h
index 94fca16..c0da451 100644
--- a/msf_core/include/msf_core/msf_state.h
+++ b/msf_core/include/msf_core/msf_state.h
@@ -151,12 +151,14 @@ struct GenericState_T {
   P_type P;  ///< Error state covariance.
   F_type Fd;   ///< Discrete state propagation matrix.
   Q_type Qd;   ///< Discrete propagation noise matrix.
+  F_type Ud;   ///< Error transition of the updates applied to this state.
 
   GenericState_T() {
     time = constants::INVALID_TIME;
     P.setZero();
     Qd.setZero();
     Fd.setIdentity();
+    Ud.setIdentity();
     Reset();
   }
 
-- 
2.43.0


From b7ab6c2e3984132464c86703368c4e56692aecea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:51 +0000
Subject: [PATCH 36/37] fix: discard IMU and external state messages stamped
 beyond the end of ros::Time's range

---
 msf_core/include/msf_core/msf_IMUHandler_ROS.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/msf_core/include/msf_core/msf_IMUHandler_ROS.h b/msf_core/include/msf_core/msf_IMUHandler_ROS.h
index 35e8b0f..cfef4f7 100644
--- a/msf_core/include/msf_core/msf_IMUHandler_ROS.h
+++ b/msf_core/include/msf_core/msf_IMUHandler_ROS.h
@@ -60,7 +60,22 @@ class IMUHandler_ROS : public IMUHandler<EKFState_T> {
 
   virtual ~IMUHandler_ROS() { }
 
+  // As seconds in a double, the last stamps of ros::Time's range round to a time
+  // which ros::Time cannot represent and nothing can be published for.
+  static bool IsStampUsable(const ros::Time& stamp) {
+    if (stamp.toSec() < 4294967296.0) {
+      return true;
+    }
+    MSF_WARN_STREAM_THROTTLE(
+        1, "Received a message stamped with the end of time. "
+        "Discarding message.");
+    return false;
+  }
+
   void StateCallback(const sensor_fusion_comm::ExtEkfConstPtr & msg) {
+    if (!IsStampUsable(msg->header.stamp)) {
+      return;
+    }
     if (msg->state.size() < HLI_EKF_STATE_SIZE) {
       MSF_WARN_STREAM_THROTTLE(
           1, "Received an external state with only " << msg->state.size()
@@ -113,6 +128,9 @@ class IMUHandler_ROS : public IMUHandler<EKFState_T> {
   }
 
   void IMUCallback(const sensor_msgs::ImuConstPtr & msg) {
+    if (!IsStampUsable(msg->header.stamp)) {
+      return;
+    }
     static int lastseq = constants::INVALID_SEQUENCE;
     if (static_cast<int>(msg->header.seq) != lastseq + 1
         && lastseq != constants::INVALID_SEQUENCE) {
-- 
2.43.0


From 19adb59a8e3d988dce6705e48bc96a999de5ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:08 +0000
Subject: [PATCH 37/37] fix: keep timer statistics valid after 2^31 samples

---
 msf_timing/include/msf_timing/Timer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/msf_timing/include/msf_timing/Timer.h b/msf_timing/include/msf_timing/Timer.h
index 950dd2a..3f7c607 100755
--- a/msf_timing/include/msf_timing/Timer.h
+++ b/msf_timing/include/msf_timing/Timer.h
@@ -49,6 +49,9 @@ class Accumulator {
       T& oldest = samples_[window_samples_++ % N];
       window_sum_ += sample - oldest;
       oldest = sample;
+      if (window_samples_ == 2 * N) {  // Full, the next one replaces the first.
+        window_samples_ = N;
+      }
     }
     sum_ += sample;
     ++totalsamples_;
@@ -60,7 +63,7 @@ class Accumulator {
     }
   }
 
-  int TotalSamples() const {
+  size_t TotalSamples() const {
     return totalsamples_;
   }
 
@@ -99,7 +102,7 @@ class Accumulator {
 
  private:
   int window_samples_;
-  int totalsamples_;
+  size_t totalsamples_;
   Total window_sum_;
   Total sum_;
   T min_;
-- 
2.43.0

