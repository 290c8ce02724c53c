From a055d70f074a2cafcc6f7109d8ef1fa42151146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 01/11] fix: do not try a zero velocity update with an out of
 order measurement

A late image delivered while standing still was accepted by the zero velocity
updater, which moved the state time backwards and re-used inertial readings.
---
 ov_msckf/src/core/VioManager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ov_msckf/src/core/VioManager.cpp b/ov_msckf/src/core/VioManager.cpp
index 6a0d7b9..78229d8 100644
--- a/ov_msckf/src/core/VioManager.cpp
+++ b/ov_msckf/src/core/VioManager.cpp
@@ -218,7 +218,9 @@ void VioManager::feed_measurement_simulation(double timestamp, const std::vector
   // Check if we should do zero-velocity, if so update the state with it
   // Note that in the case that we only use in the beginning initialization phase
   // If we have since moved, then we should never try to do a zero velocity update!
-  if (is_initialized_vio && updaterZUPT != nullptr && (!params.zupt_only_at_beginning || !has_moved_since_zupt)) {
+  // We also never try with a measurement older than our state (it is out of order, and will be skipped below)
+  if (is_initialized_vio && updaterZUPT != nullptr && timestamp >= state->_timestamp &&
+      (!params.zupt_only_at_beginning || !has_moved_since_zupt)) {
     // If the same state time, use the previous timestep decision
     if (state->_timestamp != timestamp) {
       did_zupt_update = updaterZUPT->try_update(state, timestamp);
@@ -291,7 +293,9 @@ void VioManager::track_image_and_update(const ov_core::CameraData &message_const
   // Check if we should do zero-velocity, if so update the state with it
   // Note that in the case that we only use in the beginning initialization phase
   // If we have since moved, then we should never try to do a zero velocity update!
-  if (is_initialized_vio && updaterZUPT != nullptr && (!params.zupt_only_at_beginning || !has_moved_since_zupt)) {
+  // We also never try with a measurement older than our state (it is out of order, and will be skipped below)
+  if (is_initialized_vio && updaterZUPT != nullptr && message.timestamp >= state->_timestamp &&
+      (!params.zupt_only_at_beginning || !has_moved_since_zupt)) {
     // If the same state time, use the previous timestep decision
     if (state->_timestamp != message.timestamp) {
       did_zupt_update = updaterZUPT->try_update(state, message.timestamp);
-- 
2.43.0


From 29f6614a42eba3e82f4e313359d234787885f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 02/11] fix: ignore repeated and out of order inertial readings
 in the buffers

A reading older than the newest one was appended behind it, so that the interval
selection saw negative time steps, and two equal last stamps made the
extrapolation divide by zero; both turned the estimate into NaN.
---
 ov_msckf/src/state/Propagator.h           | 5 ++++-
 ov_msckf/src/update/UpdaterZeroVelocity.h | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ov_msckf/src/state/Propagator.h b/ov_msckf/src/state/Propagator.h
index 26b4af3..4e87625 100644
--- a/ov_msckf/src/state/Propagator.h
+++ b/ov_msckf/src/state/Propagator.h
@@ -65,8 +65,11 @@ public:
   void feed_imu(const ov_core::ImuData &message, double oldest_time = -1) {
 
     // Append it to our vector
+    // Repeated or out of order readings carry no new information, and our buffer needs to be ordered in time
     std::lock_guard<std::mutex> lck(imu_data_mtx);
-    imu_data.emplace_back(message);
+    if (imu_data.empty() || message.timestamp > imu_data.back().timestamp) {
+      imu_data.emplace_back(message);
+    }
 
     // Clean old measurements
     // std::cout << "PROP: imu_data.size() " << imu_data.size() << std::endl;
diff --git a/ov_msckf/src/update/UpdaterZeroVelocity.h b/ov_msckf/src/update/UpdaterZeroVelocity.h
index 4b7f5f6..e4fbbe7 100644
--- a/ov_msckf/src/update/UpdaterZeroVelocity.h
+++ b/ov_msckf/src/update/UpdaterZeroVelocity.h
@@ -77,7 +77,10 @@ public:
   void feed_imu(const ov_core::ImuData &message, double oldest_time = -1) {
 
     // Append it to our vector
-    imu_data.emplace_back(message);
+    // Repeated or out of order readings carry no new information, and our buffer needs to be ordered in time
+    if (imu_data.empty() || message.timestamp > imu_data.back().timestamp) {
+      imu_data.emplace_back(message);
+    }
 
     // Sort our imu data (handles any out of order measurements)
     // std::sort(imu_data.begin(), imu_data.end(), [](const IMUDATA i, const IMUDATA j) {
-- 
2.43.0


From f6982ce64cb92eb7a9a58da4fc42cc6c87c6dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 03/11] fix: prune the inertial buffers in the IMU clock

---
 ov_msckf/src/core/VioManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ov_msckf/src/core/VioManager.cpp b/ov_msckf/src/core/VioManager.cpp
index 78229d8..00d5cf3 100644
--- a/ov_msckf/src/core/VioManager.cpp
+++ b/ov_msckf/src/core/VioManager.cpp
@@ -167,9 +167,12 @@ void VioManager::feed_measurement_imu(const ov_core::ImuData &message) {
 
   // The oldest time we need IMU with is the last clone
   // We shouldn't really need the whole window, but if we go backwards in time we will
+  // NOTE: clone times are in the camera clock, while the inertial buffers are in the IMU clock (t_imu = t_cam + calib_dt)
   double oldest_time = state->margtimestep();
   if (oldest_time > state->_timestamp) {
     oldest_time = -1;
+  } else {
+    oldest_time += state->_calib_dt_CAMtoIMU->value()(0);
   }
   if (!is_initialized_vio) {
     oldest_time = message.timestamp - params.init_options.init_window_time + state->_calib_dt_CAMtoIMU->value()(0) - 0.10;
-- 
2.43.0


From 34b4ee99383dc4ea0b601a2e8942d9452d681e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 04/11] fix: discrete propagation Jacobian of the gravity
 sensitivity misses the gyroscope intrinsics

---
 ov_msckf/src/state/Propagator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_msckf/src/state/Propagator.cpp b/ov_msckf/src/state/Propagator.cpp
index 47879ec..cf026f8 100644
--- a/ov_msckf/src/state/Propagator.cpp
+++ b/ov_msckf/src/state/Propagator.cpp
@@ -925,7 +925,7 @@ void Propagator::compute_F_and_G_discrete(std::shared_ptr<State> state, double d
   // begin to add the state transition matrix for the acc intrinsics Da part
   if (Da_id != -1) {
     Eigen::MatrixXd H_Da = compute_H_Da(state, a_uncorrected);
-    F.block(th_id, Da_id, 3, state->_calib_imu_da->size()) = -dR_ktok1 * Jr_ktok1 * dt * R_wtoI * Tg * R_atoI * H_Da;
+    F.block(th_id, Da_id, 3, state->_calib_imu_da->size()) = -dR_ktok1 * Jr_ktok1 * dt * R_wtoI * Dw * Tg * R_atoI * H_Da;
     F.block(p_id, Da_id, 3, state->_calib_imu_da->size()) = 0.5 * R_k.transpose() * dt * dt * R_atoI * H_Da;
     F.block(v_id, Da_id, 3, state->_calib_imu_da->size()) = R_k.transpose() * dt * R_atoI * H_Da;
     F.block(Da_id, Da_id, state->_calib_imu_da->size(), state->_calib_imu_da->size()).setIdentity();
-- 
2.43.0


From 0ec81d17c9f09d20bab31efd77bdf50df583e526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 05/11] fix: fast propagation applied the camera time offset to
 a time already in the IMU clock

---
 ov_msckf/src/state/Propagator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ov_msckf/src/state/Propagator.cpp b/ov_msckf/src/state/Propagator.cpp
index cf026f8..477d268 100644
--- a/ov_msckf/src/state/Propagator.cpp
+++ b/ov_msckf/src/state/Propagator.cpp
@@ -151,7 +151,8 @@ bool Propagator::fast_state_propagate(std::shared_ptr<State> state, double times
 
   // First lets construct an IMU vector of measurements we need
   double time0 = cache_state_time + cache_t_off;
-  double time1 = timestamp + cache_t_off;
+  // NOTE: the requested time is already in the IMU clock (only our state time needs to be converted)
+  double time1 = timestamp;
   std::vector<ov_core::ImuData> prop_data;
   {
     std::lock_guard<std::mutex> lck(imu_data_mtx);
-- 
2.43.0


From acfc0e61f275e91497e46bfc71406e54c627fe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 06/11] fix: fast propagation to a time before the last
 requested one corrupted the prediction

---
 ov_msckf/src/state/Propagator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ov_msckf/src/state/Propagator.cpp b/ov_msckf/src/state/Propagator.cpp
index 477d268..ce28ee8 100644
--- a/ov_msckf/src/state/Propagator.cpp
+++ b/ov_msckf/src/state/Propagator.cpp
@@ -141,7 +141,8 @@ bool Propagator::fast_state_propagate(std::shared_ptr<State> state, double times
                                       Eigen::Matrix<double, 12, 12> &covariance) {
 
   // First we will store the current calibration / estimates of the state
-  if (!cache_imu_valid) {
+  // Our cache can only be moved forward in time, thus restart from the state if we are asked for a time we have already passed
+  if (!cache_imu_valid || timestamp <= cache_state_time + cache_t_off) {
     cache_state_time = state->_timestamp;
     cache_state_est = state->_imu->value();
     cache_state_covariance = StateHelper::get_marginal_covariance(state, {state->_imu});
@@ -153,6 +154,8 @@ bool Propagator::fast_state_propagate(std::shared_ptr<State> state, double times
   double time0 = cache_state_time + cache_t_off;
   // NOTE: the requested time is already in the IMU clock (only our state time needs to be converted)
   double time1 = timestamp;
+  if (time1 <= time0)
+    return false;
   std::vector<ov_core::ImuData> prop_data;
   {
     std::lock_guard<std::mutex> lck(imu_data_mtx);
-- 
2.43.0


From 79752d4f3436343ae1c9ba5594721c6055df90ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 07/11] fix: local velocity covariance of fast propagation
 ignored the orientation uncertainty

---
 ov_msckf/src/state/Propagator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ov_msckf/src/state/Propagator.cpp b/ov_msckf/src/state/Propagator.cpp
index ce28ee8..4b0ed48 100644
--- a/ov_msckf/src/state/Propagator.cpp
+++ b/ov_msckf/src/state/Propagator.cpp
@@ -257,12 +257,13 @@ bool Propagator::fast_state_propagate(std::shared_ptr<State> state, double times
   Eigen::Vector3d last_w = R_GYROtoIMU * Dw * (prop_data.at(prop_data.size() - 1).wm - bias_g - Tg * last_a);
   state_plus.block(10, 0, 3, 1) = last_w;
 
-  // Do a covariance propagation for our velocity (needs to be in local frame)
+  // Do a covariance propagation for our velocity (needs to be in local frame, thus is also a function of the orientation)
   // TODO: more properly do the covariance of the angular velocity here...
   // TODO: it should be dependent on the state bias, thus correlated with the pose..
   covariance.setZero();
   Eigen::Matrix<double, 15, 15> Phi = Eigen::Matrix<double, 15, 15>::Identity();
   Phi.block(6, 6, 3, 3) = quat_2_Rot(q_Gtoi);
+  Phi.block(6, 0, 3, 3) = skew_x(quat_2_Rot(q_Gtoi) * v_iinG);
   Eigen::MatrixXd covariance_tmp = Phi * cache_state_covariance * Phi.transpose();
   covariance.block(0, 0, 9, 9) = covariance_tmp.block(0, 0, 9, 9);
   double dt = prop_data.at(prop_data.size() - 1).timestamp - prop_data.at(prop_data.size() - 2).timestamp;
-- 
2.43.0


From 69c92961df4d45853e899b1c8133f6595dba4245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 08/11] fix: restart the fast propagation from every new
 estimate

The cache was left untouched while the first clones are collected (and after a
delayed initialization), so the inertial-rate prediction kept using the
estimate before it.
---
 ov_msckf/src/core/VioManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ov_msckf/src/core/VioManager.cpp b/ov_msckf/src/core/VioManager.cpp
index 00d5cf3..36ea5e7 100644
--- a/ov_msckf/src/core/VioManager.cpp
+++ b/ov_msckf/src/core/VioManager.cpp
@@ -346,6 +346,7 @@ void VioManager::do_feature_propagate_update(const ov_core::CameraData &message)
   // NOTE: then no need to prop since we already are at the desired timestep
   if (state->_timestamp != message.timestamp) {
     propagator->propagate_and_clone(state, message.timestamp);
+    propagator->invalidate_cache();
   }
   rT3 = boost::posix_time::microsec_clock::local_time();
 
@@ -552,6 +553,7 @@ void VioManager::do_feature_propagate_update(const ov_core::CameraData &message)
   feats_slam_UPDATE = feats_slam_UPDATE_TEMP;
   rT5 = boost::posix_time::microsec_clock::local_time();
   updaterSLAM->delayed_init(state, feats_slam_DELAYED);
+  propagator->invalidate_cache();
   rT6 = boost::posix_time::microsec_clock::local_time();
 
   //===================================================================================
-- 
2.43.0


From 8f924d6fede7a8c66d279da7ab063fc5d8d466ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:44 +0000
Subject: [PATCH 09/11] fix: keep the last inertial reading before the pruning
 limit

If readings are lost around the state time, the one before the gap is the only
one from which the start of the next interval can be interpolated. Dropping it
shortened (asserted) the propagation, mainly in and after a standstill.
---
 ov_msckf/src/state/Propagator.h           | 7 ++++---
 ov_msckf/src/update/UpdaterZeroVelocity.h | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/ov_msckf/src/state/Propagator.h b/ov_msckf/src/state/Propagator.h
index 4e87625..a73d1af 100644
--- a/ov_msckf/src/state/Propagator.h
+++ b/ov_msckf/src/state/Propagator.h
@@ -83,12 +83,13 @@ public:
   void clean_old_imu_measurements(double oldest_time) {
     if (oldest_time < 0)
       return;
+    // NOTE: we keep the last reading before the oldest time, since we need to interpolate from it if readings have been lost
     auto it0 = imu_data.begin();
-    while (it0 != imu_data.end()) {
-      if (it0->timestamp < oldest_time) {
+    while (it0 != imu_data.end() && std::next(it0) != imu_data.end()) {
+      if (std::next(it0)->timestamp <= oldest_time) {
         it0 = imu_data.erase(it0);
       } else {
-        it0++;
+        break;
       }
     }
   }
diff --git a/ov_msckf/src/update/UpdaterZeroVelocity.h b/ov_msckf/src/update/UpdaterZeroVelocity.h
index e4fbbe7..0e2a7e8 100644
--- a/ov_msckf/src/update/UpdaterZeroVelocity.h
+++ b/ov_msckf/src/update/UpdaterZeroVelocity.h
@@ -99,12 +99,13 @@ public:
   void clean_old_imu_measurements(double oldest_time) {
     if (oldest_time < 0)
       return;
+    // NOTE: we keep the last reading before the oldest time, since we need to interpolate from it if readings have been lost
     auto it0 = imu_data.begin();
-    while (it0 != imu_data.end()) {
-      if (it0->timestamp < oldest_time) {
+    while (it0 != imu_data.end() && std::next(it0) != imu_data.end()) {
+      if (std::next(it0)->timestamp <= oldest_time) {
         it0 = imu_data.erase(it0);
       } else {
-        it0++;
+        break;
       }
     }
   }
-- 
2.43.0


From 1da416c048d871e76c3c4f3d5de8a6690dbfb5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 10/11] fix: continue the propagation after a zero velocity
 update from its IMU time

The propagator kept the camera time offset of the last image before the stop, so
if the offset was changed in the meantime the first interval after the stop
skipped or repeated inertial data.
---
 ov_msckf/src/state/Propagator.h             | 9 +++++++++
 ov_msckf/src/update/UpdaterZeroVelocity.cpp | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/ov_msckf/src/state/Propagator.h b/ov_msckf/src/state/Propagator.h
index a73d1af..112b75c 100644
--- a/ov_msckf/src/state/Propagator.h
+++ b/ov_msckf/src/state/Propagator.h
@@ -99,6 +99,15 @@ public:
    */
   void invalidate_cache() { cache_imu_valid = false; }
 
+  /**
+   * @brief Records up to which inertial time the state has been moved, if this was not done through our propagation
+   * @param time_offset Camera to IMU time offset which was used for the current state time
+   */
+  void set_last_prop_time_offset(double time_offset) {
+    last_prop_time_offset = time_offset;
+    have_last_prop_time_offset = true;
+  }
+
   /**
    * @brief Propagate state up to given timestamp and then clone
    *
diff --git a/ov_msckf/src/update/UpdaterZeroVelocity.cpp b/ov_msckf/src/update/UpdaterZeroVelocity.cpp
index 3c55846..c3b7797 100644
--- a/ov_msckf/src/update/UpdaterZeroVelocity.cpp
+++ b/ov_msckf/src/update/UpdaterZeroVelocity.cpp
@@ -276,6 +276,9 @@ bool UpdaterZeroVelocity::try_update(std::shared_ptr<State> state, double timest
     StateHelper::EKFUpdate(state, Hx_order, H, res, R);
     state->_timestamp = timestamp;
 
+    // The inertial data up to here has been used, thus the next propagation needs to start from the same IMU time
+    _prop->set_last_prop_time_offset(t_off_new);
+
   } else {
 
     // Propagate the state forward in time
-- 
2.43.0


From 0e32e5e733637b053e22853eaf8de1733945a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 11/11] fix: do not share the camera objects between estimators
 made from the same options

---
 ov_msckf/src/core/VioManager.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ov_msckf/src/core/VioManager.cpp b/ov_msckf/src/core/VioManager.cpp
index 36ea5e7..12f3c25 100644
--- a/ov_msckf/src/core/VioManager.cpp
+++ b/ov_msckf/src/core/VioManager.cpp
@@ -21,6 +21,8 @@
 
 #include "VioManager.h"
 
+#include "cam/CamEqui.h"
+#include "cam/CamRadtan.h"
 #include "feat/Feature.h"
 #include "feat/FeatureDatabase.h"
 #include "feat/FeatureInitializer.h"
@@ -56,6 +58,18 @@ VioManager::VioManager(VioManagerOptions &params_) : thread_init_running(false),
 
   // Nice debug
   this->params = params_;
+
+  // We need to explicitly create a copy of our shared pointers to the camera objects
+  // Otherwise our online calibration would change the cameras of everybody that uses the same options
+  params.camera_intrinsics.clear();
+  for (auto const &tmp : params_.camera_intrinsics) {
+    if (std::dynamic_pointer_cast<CamEqui>(tmp.second) != nullptr) {
+      params.camera_intrinsics.insert({tmp.first, std::make_shared<CamEqui>(tmp.second->w(), tmp.second->h())});
+    } else {
+      params.camera_intrinsics.insert({tmp.first, std::make_shared<CamRadtan>(tmp.second->w(), tmp.second->h())});
+    }
+    params.camera_intrinsics.at(tmp.first)->set_value(tmp.second->get_value());
+  }
   params.print_and_load_estimator();
   params.print_and_load_noise();
   params.print_and_load_state();
-- 
2.43.0

