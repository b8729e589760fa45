From d35d3a0368be27bc6e895729da58e81e740c5372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 01/45] fix: ThreadPool::stop() sets the stop flag under the
 mutex and wakes the workers

---
 aslam_cv_common/include/aslam/common/thread-pool.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/thread-pool.h b/aslam_cv_common/include/aslam/common/thread-pool.h
index af78aa0..71e8726 100644
--- a/aslam_cv_common/include/aslam/common/thread-pool.h
+++ b/aslam_cv_common/include/aslam/common/thread-pool.h
@@ -71,7 +71,13 @@ class ThreadPool {
   enqueue(Function&& function, Args&&... args);
 
   /// \brief Stop the thread pool. This method is non-blocking.
-  void stop(){ stop_ = true; }
+  void stop() {
+    {
+      std::unique_lock<std::mutex> lock(tasks_mutex_);
+      stop_ = true;
+    }
+    tasks_queue_change_.notify_all();
+  }
 
   // Number of queued tasks.
   size_t numQueuedTasks() const;
-- 
2.43.0


From 5a7d03182e2db47899d2ab155571da37f8e3118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 02/45] fix: ThreadPool::enqueueOrdered() tests the stop flag
 in the critical section that queues the task

---
 aslam_cv_common/include/aslam/common/thread-pool.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/thread-pool.h b/aslam_cv_common/include/aslam/common/thread-pool.h
index 71e8726..ee64324 100644
--- a/aslam_cv_common/include/aslam/common/thread-pool.h
+++ b/aslam_cv_common/include/aslam/common/thread-pool.h
@@ -137,18 +137,18 @@ std::future<typename std::result_of<Function(Args...)>::type>
 ThreadPool::enqueueOrdered(const size_t exclusivity_group_id,
                            Function&& function, Args&&... args) {
   typedef typename std::result_of<Function(Args...)>::type return_type;
-  // Don't allow enqueueing after stopping the pool.
-  if(stop_) {
-    LOG(ERROR) << "enqueue() called on stopped ThreadPool";
-    // An empty future will return valid() == false.
-    return std::future<typename std::result_of<Function(Args...)>::type>();
-  }
   auto task = std::make_shared<std::packaged_task<return_type()>>(
       std::bind(function, std::forward<Args>(args)...));
 
   std::future<return_type> res = task->get_future();
   {
     std::unique_lock<std::mutex> lock(tasks_mutex_);
+    // Don't allow enqueueing after stopping the pool.
+    if(stop_) {
+      LOG(ERROR) << "enqueue() called on stopped ThreadPool";
+      // An empty future will return valid() == false.
+      return std::future<typename std::result_of<Function(Args...)>::type>();
+    }
     groupid_tasks_.emplace_back(exclusivity_group_id, [task](){ (*task)();});
 
     // Initialize a group id exclusivity guard.
-- 
2.43.0


From 2014617fe704747c5e103aed104bae0707984bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 03/45] fix: ThreadPool wakes all waiters on a new task,
 notify_one could wake waitForEmptyQueue() instead of a worker

---
 aslam_cv_common/include/aslam/common/thread-pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/thread-pool.h b/aslam_cv_common/include/aslam/common/thread-pool.h
index ee64324..ccdd7e3 100644
--- a/aslam_cv_common/include/aslam/common/thread-pool.h
+++ b/aslam_cv_common/include/aslam/common/thread-pool.h
@@ -159,7 +159,7 @@ ThreadPool::enqueueOrdered(const size_t exclusivity_group_id,
       groupid_exclusivity_guards_.emplace(exclusivity_group_id, false);
     }
   }
-  tasks_queue_change_.notify_one();
+  tasks_queue_change_.notify_all();
   return res;
 }
 
-- 
2.43.0


From 4fcafa6d32d8eb115259f61e51c3fbfab0022fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 04/45] fix: copying a ChannelGroup locks both groups

---
 aslam_cv_common/include/aslam/common/channel.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aslam_cv_common/include/aslam/common/channel.h b/aslam_cv_common/include/aslam/common/channel.h
index d0bddea..4d99ad8 100644
--- a/aslam_cv_common/include/aslam/common/channel.h
+++ b/aslam_cv_common/include/aslam/common/channel.h
@@ -126,6 +126,12 @@ struct ChannelGroup {
     *this = other;
   }
   ChannelGroup& operator=(const ChannelGroup& other) {
+    if (this == &other) {
+      return *this;
+    }
+    std::unique_lock<std::mutex> lock(m_channels_, std::defer_lock);
+    std::unique_lock<std::mutex> lock_other(other.m_channels_, std::defer_lock);
+    std::lock(lock, lock_other);
     channels_ = other.channels_;
     return *this;
   }
-- 
2.43.0


From e654a7ea1f8334a141c1e29f01ffc5bb95812856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 05/45] fix: isChannelGroupEqual() locks the two groups without
 a fixed order to avoid a deadlock

---
 aslam_cv_common/src/channel.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/src/channel.cc b/aslam_cv_common/src/channel.cc
index ae75d0f..2de51d4 100644
--- a/aslam_cv_common/src/channel.cc
+++ b/aslam_cv_common/src/channel.cc
@@ -28,8 +28,10 @@ bool isChannelGroupEqual(const ChannelGroup& left_channels, const ChannelGroup&
   if (&left_channels == &right_channels) {
     return true;
   }
-  std::lock_guard<std::mutex> lock_left(left_channels.m_channels_);
-  std::lock_guard<std::mutex> lock_right(right_channels.m_channels_);
+  // Lock both groups without imposing an order, two threads may compare them the other way round.
+  std::unique_lock<std::mutex> lock_left(left_channels.m_channels_, std::defer_lock);
+  std::unique_lock<std::mutex> lock_right(right_channels.m_channels_, std::defer_lock);
+  std::lock(lock_left, lock_right);
 
   if (left_channels.channels_.size() != right_channels.channels_.size()) {
     return false;
-- 
2.43.0


From 902f9a3199245ac0b5eef06824533a8b7e200305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 06/45] fix: comparing image channels handles different sizes,
 types and several channels

---
 aslam_cv_common/src/channel.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/src/channel.cc b/aslam_cv_common/src/channel.cc
index 2de51d4..94b5ba4 100644
--- a/aslam_cv_common/src/channel.cc
+++ b/aslam_cv_common/src/channel.cc
@@ -9,7 +9,15 @@ namespace channels {
 
 template<>
 bool Channel<cv::Mat>::operator==(const Channel<cv::Mat>& other) {
-  return cv::countNonZero(value_ != other.value_) == 0;
+  if (value_.size != other.value_.size || value_.type() != other.value_.type()) {
+    return false;
+  }
+  if (value_.empty()) {
+    return true;
+  }
+  // cv::countNonZero only accepts a single channel.
+  const cv::Mat difference = value_ != other.value_;
+  return cv::countNonZero(difference.reshape(1)) == 0;
 }
 
 ChannelGroup cloneChannelGroup(const ChannelGroup& channels) {
-- 
2.43.0


From 22cab754b3089256937291f2432fbc25fc20f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 07/45] fix: Channel::equal_to() for pointers compared the
 channel with nullptr

---
 aslam_cv_common/include/aslam/common/channel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/channel.h b/aslam_cv_common/include/aslam/common/channel.h
index 4d99ad8..b8e3e21 100644
--- a/aslam_cv_common/include/aslam/common/channel.h
+++ b/aslam_cv_common/include/aslam/common/channel.h
@@ -103,7 +103,7 @@ class Channel : public aslam::Cloneable<ChannelBase, Channel<TYPE>> {
     return value_ == other.value_;
   }
   bool equal_to(const Channel<TYPE>& other, std::false_type /*is_not_pointer */) {
-    if (other == nullptr && value_ == nullptr) {
+    if (other.value_ == nullptr && value_ == nullptr) {
       return true;
     } else if (other.value_ != nullptr && value_ != nullptr) {
       return *value_ == *other.value_;
-- 
2.43.0


From 2f95a83df2a53929fdc60439a17836abc85247d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 08/45] fix: comparing Eigen channels of different sizes
 answers false instead of asserting

---
 .../include/aslam/common/channel.h            | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/channel.h b/aslam_cv_common/include/aslam/common/channel.h
index b8e3e21..a698bfa 100644
--- a/aslam_cv_common/include/aslam/common/channel.h
+++ b/aslam_cv_common/include/aslam/common/channel.h
@@ -15,9 +15,11 @@
 /// @}
 /// @}
 
+#include <algorithm>
 #include <mutex>
 #include <string>
 #include <unordered_map>
+#include <vector>
 
 #include <aslam/common/channel-serialization.h>
 #include <aslam/common/crtp-clone.h>
@@ -48,6 +50,26 @@ struct ChannelValueCloner :
 template<> struct ChannelValueCloner<cv::Mat> {
   static cv::Mat clone(const cv::Mat& value) { return value; }
 };
+
+template<typename ValueType>
+bool isChannelValueEqual(const ValueType& left, const ValueType& right) {
+  return left == right;
+}
+// The comparison operators of Eigen require equal sizes.
+template<typename Scalar, int Rows, int Cols, int Options, int MaxRows, int MaxCols>
+bool isChannelValueEqual(const Eigen::Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>& left,
+                         const Eigen::Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>& right) {
+  return left.rows() == right.rows() && left.cols() == right.cols() && left == right;
+}
+template<typename ValueType, typename Allocator>
+bool isChannelValueEqual(const std::vector<ValueType, Allocator>& left,
+                         const std::vector<ValueType, Allocator>& right) {
+  return left.size() == right.size() &&
+      std::equal(left.begin(), left.end(), right.begin(),
+                 [](const ValueType& left_element, const ValueType& right_element) {
+                   return isChannelValueEqual(left_element, right_element);
+                 });
+}
 }
 
 class ChannelBase {
@@ -100,7 +122,7 @@ class Channel : public aslam::Cloneable<ChannelBase, Channel<TYPE>> {
 
  private:
   bool equal_to(const Channel<TYPE>& other, std::true_type /*is_not_pointer */) {
-    return value_ == other.value_;
+    return internal::isChannelValueEqual(value_, other.value_);
   }
   bool equal_to(const Channel<TYPE>& other, std::false_type /*is_not_pointer */) {
     if (other.value_ == nullptr && value_ == nullptr) {
-- 
2.43.0


From 1229453dab523a4b84c733527dbe3a7331b28baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 09/45] fix: getObservedCornerById() compared the corner id
 with the number of observed corners and did not check its output

---
 .../include/aslam/calibration/target-observation.h              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_calibration/include/aslam/calibration/target-observation.h b/aslam_cv_calibration/include/aslam/calibration/target-observation.h
index 9334ddd..ad9b99d 100644
--- a/aslam_cv_calibration/include/aslam/calibration/target-observation.h
+++ b/aslam_cv_calibration/include/aslam/calibration/target-observation.h
@@ -78,7 +78,7 @@ class TargetObservation {
   }
 
   bool getObservedCornerById(int corner_id, Eigen::Vector2d* obs_corner) const {
-    CHECK_LT(corner_id, corner_ids_.rows());
+    CHECK_NOTNULL(obs_corner);
 
     for (int i = 0; i < corner_ids_.rows(); ++i) {
       if (corner_id == corner_ids_(i)) {
-- 
2.43.0


From b4f8e85794abe4c1e3a3926954196989ee4650ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 10/45] fix: Camera::project4() checks its Jacobian output
 before writing to it

---
 aslam_cv_cameras/src/camera.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_cameras/src/camera.cc b/aslam_cv_cameras/src/camera.cc
index 9a6babb..a6769d7 100644
--- a/aslam_cv_cameras/src/camera.cc
+++ b/aslam_cv_cameras/src/camera.cc
@@ -356,6 +356,7 @@ const ProjectionResult Camera::project4(
     Eigen::Vector2d* out_keypoint,
     Eigen::Matrix<double, 2, 4>* out_jacobian) const {
   CHECK_NOTNULL(out_keypoint);
+  CHECK_NOTNULL(out_jacobian);
 
   Eigen::Vector3d point_3d;
   if (point_4d[3] < 0)
-- 
2.43.0


From dca3ac8468ea1bc12b42142a63073546ad84cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 11/45] fix: distortParameterJacobian() uses the internal
 parameters for a null dist_coeffs instead of dereferencing it

---
 aslam_cv_cameras/src/distortion-equidistant.cc | 4 ++++
 aslam_cv_cameras/src/distortion-fisheye.cc     | 4 ++++
 aslam_cv_cameras/src/distortion-radtan.cc      | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/aslam_cv_cameras/src/distortion-equidistant.cc b/aslam_cv_cameras/src/distortion-equidistant.cc
index 7a822e2..23138e8 100644
--- a/aslam_cv_cameras/src/distortion-equidistant.cc
+++ b/aslam_cv_cameras/src/distortion-equidistant.cc
@@ -110,6 +110,10 @@ void EquidistantDistortion::distortParameterJacobian(
     const Eigen::VectorXd* dist_coeffs,
     const Eigen::Vector2d& point,
     Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if (!dist_coeffs) {
+    dist_coeffs = &distortion_coefficients_;
+  }
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
diff --git a/aslam_cv_cameras/src/distortion-fisheye.cc b/aslam_cv_cameras/src/distortion-fisheye.cc
index 48ae4c3..18bbf58 100644
--- a/aslam_cv_cameras/src/distortion-fisheye.cc
+++ b/aslam_cv_cameras/src/distortion-fisheye.cc
@@ -82,6 +82,10 @@ void FisheyeDistortion::distortUsingExternalCoefficients(const Eigen::VectorXd*
 void FisheyeDistortion::distortParameterJacobian(const Eigen::VectorXd* dist_coeffs,
                                                  const Eigen::Vector2d& point,
                                                  Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if (!dist_coeffs) {
+    dist_coeffs = &distortion_coefficients_;
+  }
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
diff --git a/aslam_cv_cameras/src/distortion-radtan.cc b/aslam_cv_cameras/src/distortion-radtan.cc
index 12deb37..7dc106e 100644
--- a/aslam_cv_cameras/src/distortion-radtan.cc
+++ b/aslam_cv_cameras/src/distortion-radtan.cc
@@ -68,6 +68,10 @@ void RadTanDistortion::distortParameterJacobian(
     const Eigen::VectorXd* dist_coeffs,
     const Eigen::Vector2d& point,
     Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if (!dist_coeffs) {
+    dist_coeffs = &distortion_coefficients_;
+  }
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
-- 
2.43.0


From 15fe04c12391e00c728f6e436e05cb1613daad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 12/45] fix: rotateCovariance() checks its output argument

---
 aslam_cv_common/src/covariance-helpers.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_cv_common/src/covariance-helpers.cc b/aslam_cv_common/src/covariance-helpers.cc
index 866db81..86859e5 100644
--- a/aslam_cv_common/src/covariance-helpers.cc
+++ b/aslam_cv_common/src/covariance-helpers.cc
@@ -1,5 +1,7 @@
 #include <aslam/common/covariance-helpers.h>
 
+#include <glog/logging.h>
+
 namespace aslam {
 namespace common {
 
@@ -7,6 +9,7 @@ void rotateCovariance(
     const aslam::Transformation& T_B_A,
     const aslam::TransformationCovariance& A_covariance,
     aslam::TransformationCovariance* B_covariance) {
+  CHECK_NOTNULL(B_covariance);
   Eigen::Matrix<double, 6, 6> covariance_transformation_B_A =
       Eigen::Matrix<double, 6, 6>::Identity();
   covariance_transformation_B_A.block<3, 3>(0, 0) = T_B_A.getRotationMatrix();
-- 
2.43.0


From 571e43f1f039ed1f7f76be909dcaec9ee660b457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 13/45] fix: VisualFrame::swapKeypoint*() check their argument
 like swapDescriptors()

---
 aslam_cv_frames/src/visual-frame.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 5dce032..951ca2f 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -351,6 +351,7 @@ void VisualFrame::setRawImage(const cv::Mat& image_new) {
 }
 
 void VisualFrame::swapKeypointMeasurements(Eigen::Matrix2Xd* keypoints_new) {
+  CHECK_NOTNULL(keypoints_new);
   if (!aslam::channels::has_VISUAL_KEYPOINT_MEASUREMENTS_Channel(channels_)) {
     aslam::channels::add_VISUAL_KEYPOINT_MEASUREMENTS_Channel(&channels_);
   }
@@ -359,6 +360,7 @@ void VisualFrame::swapKeypointMeasurements(Eigen::Matrix2Xd* keypoints_new) {
   keypoints.swap(*keypoints_new);
 }
 void VisualFrame::swapKeypointMeasurementUncertainties(Eigen::VectorXd* uncertainties_new) {
+  CHECK_NOTNULL(uncertainties_new);
   if (!aslam::channels::has_VISUAL_KEYPOINT_MEASUREMENT_UNCERTAINTIES_Channel(channels_)) {
     aslam::channels::add_VISUAL_KEYPOINT_MEASUREMENT_UNCERTAINTIES_Channel(&channels_);
   }
@@ -367,6 +369,7 @@ void VisualFrame::swapKeypointMeasurementUncertainties(Eigen::VectorXd* uncertai
   data.swap(*uncertainties_new);
 }
 void VisualFrame::swapKeypointOrientations(Eigen::VectorXd* orientations_new) {
+  CHECK_NOTNULL(orientations_new);
   if (!aslam::channels::has_VISUAL_KEYPOINT_ORIENTATIONS_Channel(channels_)) {
     aslam::channels::add_VISUAL_KEYPOINT_ORIENTATIONS_Channel(&channels_);
   }
@@ -375,6 +378,7 @@ void VisualFrame::swapKeypointOrientations(Eigen::VectorXd* orientations_new) {
   data.swap(*orientations_new);
 }
 void VisualFrame::swapKeypointScores(Eigen::VectorXd* scores_new) {
+  CHECK_NOTNULL(scores_new);
   if (!aslam::channels::has_VISUAL_KEYPOINT_SCORES_Channel(channels_)) {
     aslam::channels::add_VISUAL_KEYPOINT_SCORES_Channel(&channels_);
   }
@@ -383,6 +387,7 @@ void VisualFrame::swapKeypointScores(Eigen::VectorXd* scores_new) {
   data.swap(*scores_new);
 }
 void VisualFrame::swapKeypointScales(Eigen::VectorXd* scales_new) {
+  CHECK_NOTNULL(scales_new);
   if (!aslam::channels::has_VISUAL_KEYPOINT_SCALES_Channel(channels_)) {
     aslam::channels::add_VISUAL_KEYPOINT_SCALES_Channel(&channels_);
   }
@@ -391,6 +396,7 @@ void VisualFrame::swapKeypointScales(Eigen::VectorXd* scales_new) {
   data.swap(*scales_new);
 }
 void VisualFrame::swapKeypoint3DPositions(Eigen::Matrix3Xd* positions_new) {
+  CHECK_NOTNULL(positions_new);
   if (!aslam::channels::has_VISUAL_KEYPOINT_3D_POSITIONS_Channel(channels_)) {
     aslam::channels::add_VISUAL_KEYPOINT_3D_POSITIONS_Channel(&channels_);
   }
@@ -399,6 +405,7 @@ void VisualFrame::swapKeypoint3DPositions(Eigen::Matrix3Xd* positions_new) {
   positions.swap(*positions_new);
 }
 void VisualFrame::swapKeypointTimeOffsets(Eigen::VectorXi* offsets_new) {
+  CHECK_NOTNULL(offsets_new);
   if (!aslam::channels::has_VISUAL_KEYPOINT_TIME_OFFSETS_Channel(channels_)) {
     aslam::channels::add_VISUAL_KEYPOINT_TIME_OFFSETS_Channel(&channels_);
   }
-- 
2.43.0


From b9ab6d64e45ed58d0a78a7b1da40c437d32b8898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 14/45] fix: two-point outlier rejection checks its outputs and
 compares both bearing vector sets

---
 .../src/match-outlier-rejection-twopt.cc                      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc b/aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc
index 2f97b59..85b58cf 100644
--- a/aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc
+++ b/aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc
@@ -21,6 +21,8 @@ bool rejectOutlierFeatureMatchesTranslationRotationSAC(
     bool fix_random_seed, double ransac_threshold, size_t ransac_max_iterations,
     aslam::FrameToFrameMatches* inlier_matches_kp1_k,
     aslam::FrameToFrameMatches* outlier_matches_kp1_k) {
+  CHECK_NOTNULL(inlier_matches_kp1_k);
+  CHECK_NOTNULL(outlier_matches_kp1_k);
 
   BearingVectors bearing_vectors_kp1;
   BearingVectors bearing_vectors_k;
@@ -57,7 +59,7 @@ bool rejectOutlierFeatureMatchesTranslationRotationSAC(
   CHECK_GT(ransac_threshold, 0.0);
   CHECK_GT(ransac_max_iterations, 0u);
   CHECK_NOTNULL(inlier_indices)->clear();
-  CHECK_EQ(bearing_vectors_kp1.size(), bearing_vectors_kp1.size());
+  CHECK_EQ(bearing_vectors_kp1.size(), bearing_vectors_k.size());
 
   // Handle the case with too few matches to distinguish between out-/inliers.
   static constexpr size_t kMinKeypointCorrespondences = 6u;
-- 
2.43.0


From 5c6168761a1b9cecda5311caf4ab2c322ffe56b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 15/45] fix: PnpPoseEstimator checks the camera argument

---
 aslam_cv_geometric_vision/src/pnp-pose-estimator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
index e1f9e03..827a554 100644
--- a/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
+++ b/aslam_cv_geometric_vision/src/pnp-pose-estimator.cc
@@ -19,6 +19,7 @@ bool PnpPoseEstimator::absolutePoseRansacPinholeCam(
     const Eigen::Matrix3Xd& G_landmark_positions, double pixel_sigma,
     int max_ransac_iters, aslam::Camera::ConstPtr camera_ptr,
     aslam::Transformation* T_G_C, std::vector<int>* inliers, int* num_iters) const {
+  CHECK_NOTNULL(camera_ptr);
   CHECK_NOTNULL(T_G_C);
   CHECK_NOTNULL(inliers);
   CHECK_NOTNULL(num_iters);
@@ -79,6 +80,7 @@ bool PnpPoseEstimator::absoluteMultiPoseRansacPinholeCam(
     int max_ransac_iters, aslam::NCamera::ConstPtr ncamera_ptr,
     aslam::Transformation* T_G_I, std::vector<int>* inliers,
     std::vector<double>* inlier_distances_to_model, int* num_iters) const {
+  CHECK_NOTNULL(ncamera_ptr);
   CHECK_NOTNULL(T_G_I);
   CHECK_NOTNULL(inliers);
   CHECK_NOTNULL(inlier_distances_to_model);
@@ -136,6 +138,7 @@ bool PnpPoseEstimator::absolutePoseRansac(
     const Eigen::Matrix3Xd& G_landmark_positions, double ransac_threshold,
     int max_ransac_iters, aslam::Camera::ConstPtr camera_ptr,
     aslam::Transformation* T_G_C, std::vector<int>* inliers, int* num_iters) const {
+  CHECK_NOTNULL(camera_ptr);
   CHECK_NOTNULL(T_G_C);
   CHECK_NOTNULL(inliers);
   CHECK_NOTNULL(num_iters);
@@ -197,6 +200,7 @@ bool PnpPoseEstimator::absoluteMultiPoseRansac(
     int max_ransac_iters, aslam::NCamera::ConstPtr ncamera_ptr,
     aslam::Transformation* T_G_I, std::vector<int>* inliers,
     std::vector<double>* inlier_distances_to_model, int* num_iters) const {
+  CHECK_NOTNULL(ncamera_ptr);
   CHECK_NOTNULL(T_G_I);
   CHECK_NOTNULL(inliers);
   CHECK_NOTNULL(inlier_distances_to_model);
-- 
2.43.0


From 8149282da0eae91baa7124731505a74368aa9b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 16/45] fix: MappedUndistorter checks the output camera

---
 aslam_cv_pipeline/src/undistorter-mapped.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_pipeline/src/undistorter-mapped.cc b/aslam_cv_pipeline/src/undistorter-mapped.cc
index a572b73..8787fac 100644
--- a/aslam_cv_pipeline/src/undistorter-mapped.cc
+++ b/aslam_cv_pipeline/src/undistorter-mapped.cc
@@ -50,6 +50,7 @@ MappedUndistorter::MappedUndistorter(Camera::Ptr input_camera, Camera::Ptr outpu
                                      aslam::InterpolationMethod interpolation)
 : Undistorter(input_camera, output_camera), map_u_(map_u), map_v_(map_v),
   interpolation_method_(interpolation) {
+  CHECK(output_camera);
   CHECK_EQ(static_cast<size_t>(map_u_.rows), output_camera->imageHeight());
   CHECK_EQ(static_cast<size_t>(map_u_.cols), output_camera->imageWidth());
   CHECK_EQ(static_cast<size_t>(map_v_.rows), output_camera->imageHeight());
-- 
2.43.0


From 0e41f1fe092c567a720b4b353092ae7aecf93782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 17/45] fix: WeightedOccupancyGrid::getGridCell() const could
 not be instantiated

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 2 +-
 aslam_cv_common/include/aslam/common/occupancy-grid.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index d667f34..5b2bb78 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -382,7 +382,7 @@ inline bool WeightedOccupancyGrid<PointType>::isValidGridCoordinates(
 template<typename PointType>
 inline typename WeightedOccupancyGrid<PointType>::GridCoordinates
 WeightedOccupancyGrid<PointType>::inputToGridCoordinates(
-    CoordinatesType u_rows, CoordinatesType v_cols) {
+    CoordinatesType u_rows, CoordinatesType v_cols) const {
   CHECK(isValidInputCoordinate(u_rows, v_cols))
       << "u_rows: " << u_rows << ", v_cols: " << v_cols;
   const size_t grid_row = static_cast<size_t>(std::floor(u_rows / cell_size_rows_));
diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid.h b/aslam_cv_common/include/aslam/common/occupancy-grid.h
index 97b4cc9..eecf800 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid.h
@@ -126,7 +126,7 @@ class WeightedOccupancyGrid {
   /// @}
 
  private:
-  GridCoordinates inputToGridCoordinates(CoordinatesType u_rows, CoordinatesType v_cols);
+  GridCoordinates inputToGridCoordinates(CoordinatesType u_rows, CoordinatesType v_cols) const;
   inline bool isValidInputCoordinate(CoordinatesType u_rows, CoordinatesType v_cols) const;
   inline bool isValidGridCoordinates(const GridCoordinates& grid_coordinates) const;
 
-- 
2.43.0


From 4f38fadafa8a82946e7e3bf5a1036ba97af7dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 18/45] fix: deserializing channels checks the sizes found in
 the buffer

The vector overload read its count, headers and elements without comparing them with the size of
the buffer; for images the number of channels in the header was not validated, so that
cv::Mat::create() could allocate less than what is copied into it, and the status was dropped.
---
 .../include/aslam/common/channel-serialization.h          | 8 +++++++-
 aslam_cv_common/src/channel-serialization.cc              | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/channel-serialization.h b/aslam_cv_common/include/aslam/common/channel-serialization.h
index c4d5161..cc5170a 100644
--- a/aslam_cv_common/include/aslam/common/channel-serialization.h
+++ b/aslam_cv_common/include/aslam/common/channel-serialization.h
@@ -245,12 +245,16 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
   CHECK_NOTNULL(matrices);
 
   size_t repeat;
+  CHECK_GE(size, sizeof(repeat));
   memcpy(&repeat, buffer, sizeof(repeat));
   size_t offset = sizeof(repeat);
 
+  HeaderInformation header;
+  // Every matrix takes at least its header.
+  CHECK_LE(repeat, (size - offset) / header.size());
   matrices->resize(repeat);
   for (size_t i = 0; i < repeat; i++) {
-    HeaderInformation header;
+    CHECK_GE(size - offset, header.size());
     bool success = header.deSerializeFromBuffer(buffer, offset);
     if (!success) {
       LOG(ERROR) << "Failed to deserialize header from string: " <<
@@ -277,9 +281,11 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
     }
 
     size_t matrix_size = sizeof(Scalar) * (*matrices)[i].rows() * (*matrices)[i].cols();
+    CHECK_GE(size - offset, matrix_size);
     memcpy((*matrices)[i].data(), buffer + offset, matrix_size);
     offset += matrix_size;
   }
+  CHECK_EQ(offset, size);
 
   return true;
 }
diff --git a/aslam_cv_common/src/channel-serialization.cc b/aslam_cv_common/src/channel-serialization.cc
index 34caaa8..fbf674d 100644
--- a/aslam_cv_common/src/channel-serialization.cc
+++ b/aslam_cv_common/src/channel-serialization.cc
@@ -101,6 +101,8 @@ void deSerializeTypedFromBuffer(const char* const buffer, size_t size,
                                 const HeaderInformation& header, cv::Mat* image) {
   CHECK_NOTNULL(buffer);
   CHECK_NOTNULL(image);
+  CHECK_GE(header.channels, 1u);
+  CHECK_LE(header.channels, static_cast<uint32_t>(CV_CN_MAX));
   size_t matrix_size = sizeof(SCALAR) * header.rows * header.cols * header.channels;
   size_t total_size = matrix_size + header.size();
   CHECK_EQ(size, total_size);
@@ -152,7 +154,7 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size, cv::Mat* image
       break;
   }
 
-  return true;
+  return success;
 }
 
 bool serializeToBuffer(const cv::Mat& image, char** buffer, size_t* size) {
-- 
2.43.0


From e2990f0e0e367312f96209d4c1592dec40ea4a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 19/45] fix: scalar channels keep their value when serialized
 to a string

std::to_string() keeps six decimals of a floating point value, and unsigned 64-bit values above
the signed range could not be read back.
---
 .../include/aslam/common/channel-serialization.h    | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/channel-serialization.h b/aslam_cv_common/include/aslam/common/channel-serialization.h
index cc5170a..90a23e7 100644
--- a/aslam_cv_common/include/aslam/common/channel-serialization.h
+++ b/aslam_cv_common/include/aslam/common/channel-serialization.h
@@ -2,7 +2,9 @@
 #define ASLAM_CHANNEL_SERIALIZATION_H_
 
 #include <cstdint>
+#include <iomanip>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <string>
 #include <type_traits>
@@ -312,7 +314,10 @@ bool serializeToBuffer(const cv::Mat& matrix,
 template<typename Scalar>
 bool serializeToString(const Scalar& value, std::string* string) {
   CHECK_NOTNULL(string);
-  std::string value_string = std::to_string(value);
+  std::ostringstream stream;
+  // The unary plus prints character types as numbers.
+  stream << std::setprecision(std::numeric_limits<Scalar>::max_digits10) << +value;
+  std::string value_string = stream.str();
   string->swap(value_string);
   return true;
 }
@@ -323,7 +328,11 @@ bool deSerializeFromString(const std::string& string,
                            typename std::enable_if<std::is_integral<Scalar>::value>::type* = 0) {
   CHECK_NOTNULL(value);
   CHECK(!string.empty());
-  (*value) = static_cast<Scalar>(std::stoll(string));
+  if (std::is_signed<Scalar>::value) {
+    (*value) = static_cast<Scalar>(std::stoll(string));
+  } else {
+    (*value) = static_cast<Scalar>(std::stoull(string));
+  }
   return true;
 }
 
-- 
2.43.0


From 97e99e3f4053a29110960bb52d16f2bd377727ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 20/45] fix: Timing and Statistics read their tag map and tag
 length under the mutex

Printing and writing to a file iterated over the map while other threads may add tags; the accessors
returned a reference to it.
---
 .../include/aslam/common/statistics/statistics.h   |  3 ++-
 aslam_cv_common/include/aslam/common/timer.h       |  3 ++-
 aslam_cv_common/src/statistics.cc                  | 14 ++++++++++----
 aslam_cv_common/src/timer.cc                       |  6 ++++--
 4 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/statistics/statistics.h b/aslam_cv_common/include/aslam/common/statistics/statistics.h
index a2bb80f..c94c1fb 100644
--- a/aslam_cv_common/include/aslam/common/statistics/statistics.h
+++ b/aslam_cv_common/include/aslam/common/statistics/statistics.h
@@ -187,7 +187,8 @@ class Statistics {
   static std::string Print();
   static std::string SecondsToTimeString(double seconds);
   static void Reset();
-  static const map_t& GetStatsCollectors() {
+  static map_t GetStatsCollectors() {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
     return Instance().tag_map_;
   }
 
diff --git a/aslam_cv_common/include/aslam/common/timer.h b/aslam_cv_common/include/aslam/common/timer.h
index e59c4fc..251df40 100755
--- a/aslam_cv_common/include/aslam/common/timer.h
+++ b/aslam_cv_common/include/aslam/common/timer.h
@@ -114,7 +114,8 @@ class Timing {
   static std::string Print();
   static std::string SecondsToTimeString(double seconds);
   static void Reset();
-  static const map_t& GetTimerImpls() {
+  static map_t GetTimerImpls() {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
     return Instance().tag_map_;
   }
 
diff --git a/aslam_cv_common/src/statistics.cc b/aslam_cv_common/src/statistics.cc
index fdb822d..face595 100644
--- a/aslam_cv_common/src/statistics.cc
+++ b/aslam_cv_common/src/statistics.cc
@@ -195,7 +195,13 @@ std::string Statistics::SecondsToTimeString(double seconds) {
 }
 
 void Statistics::Print(std::ostream& out) {  // NOLINT
-  const map_t& tag_map = Instance().tag_map_;
+  map_t tag_map;
+  size_t max_tag_length;
+  {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
+    tag_map = Instance().tag_map_;
+    max_tag_length = Instance().max_tag_length_;
+  }
 
   if (tag_map.empty()) {
     return;
@@ -203,7 +209,7 @@ void Statistics::Print(std::ostream& out) {  // NOLINT
 
   out << "Statistics\n";
 
-  out.width((std::streamsize)Instance().max_tag_length_);
+  out.width((std::streamsize)max_tag_length);
   out.setf(std::ios::left, std::ios::adjustfield);
   out << "-----------";
   out.width(7);
@@ -215,7 +221,7 @@ void Statistics::Print(std::ostream& out) {  // NOLINT
 
   for (const typename map_t::value_type& t : tag_map) {
     size_t i = t.second;
-    out.width((std::streamsize)Instance().max_tag_length_);
+    out.width((std::streamsize)max_tag_length);
     out.setf(std::ios::left, std::ios::adjustfield);
     out << t.first << "\t";
     out.width(7);
@@ -239,7 +245,7 @@ void Statistics::Print(std::ostream& out) {  // NOLINT
 }
 
 void Statistics::WriteToYamlFile(const std::string& path) {
-  const map_t& tag_map = Instance().tag_map_;
+  const map_t tag_map = GetStatsCollectors();
 
   if (tag_map.empty()) {
     return;
diff --git a/aslam_cv_common/src/timer.cc b/aslam_cv_common/src/timer.cc
index 442012d..214956a 100755
--- a/aslam_cv_common/src/timer.cc
+++ b/aslam_cv_common/src/timer.cc
@@ -186,7 +186,7 @@ std::string Timing::SecondsToTimeString(double seconds) {
 }
 
 void Timing::WriteToYamlFile(const std::string& path) {
-  const map_t& tag_map = Instance().tag_map_;
+  const map_t tag_map = GetTimerImpls();
 
   if (tag_map.empty()) {
     return;
@@ -225,9 +225,11 @@ void Timing::WriteToYamlFile(const std::string& path) {
 
 void Timing::Print(std::ostream& out) {  // NOLINT
   map_t tagMap;
+  size_t max_tag_length;
   {
     std::lock_guard<std::mutex> lock(Instance().mutex_);
     tagMap = Instance().tag_map_;
+    max_tag_length = Instance().max_tag_length_;
   }
 
   if (tagMap.empty()) {
@@ -238,7 +240,7 @@ void Timing::Print(std::ostream& out) {  // NOLINT
   out << "-----------\n";
   for (typename map_t::value_type t : tagMap) {
     size_t time_i = t.second;
-    out.width((std::streamsize)Instance().max_tag_length_);
+    out.width((std::streamsize)max_tag_length);
     out.setf(std::ios::left, std::ios::adjustfield);
     out << t.first << "\t";
     out.width(7);
-- 
2.43.0


From a6f7b03e6075fb0f451c4b5a78530d774adbe2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 21/45] fix: Timing and Statistics reject handles that were
 never given out

The handle indexed the list of collectors unchecked.
---
 aslam_cv_common/src/statistics.cc | 28 ++++++++++++++--------------
 aslam_cv_common/src/timer.cc      | 16 ++++++++--------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/aslam_cv_common/src/statistics.cc b/aslam_cv_common/src/statistics.cc
index face595..7d870da 100644
--- a/aslam_cv_common/src/statistics.cc
+++ b/aslam_cv_common/src/statistics.cc
@@ -72,60 +72,60 @@ void StatsCollectorImpl::IncrementOne() const {
 }
 void Statistics::AddSample(size_t handle, double seconds) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  stats_collectors_[handle].AddValue(seconds);
+  stats_collectors_.at(handle).AddValue(seconds);
 }
 double Statistics::GetLastValue(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().stats_collectors_[handle].GetLastValue();
+  return Instance().stats_collectors_.at(handle).GetLastValue();
 }
 double Statistics::GetLastValue(std::string const& tag) {
   return GetLastValue(GetHandle(tag));
 }
 double Statistics::GetTotal(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().stats_collectors_[handle].Sum();
+  return Instance().stats_collectors_.at(handle).Sum();
 }
 double Statistics::GetTotal(std::string const& tag) {
   return GetTotal(GetHandle(tag));
 }
 double Statistics::GetMean(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().stats_collectors_[handle].Mean();
+  return Instance().stats_collectors_.at(handle).Mean();
 }
 double Statistics::GetMean(std::string const& tag) {
   return GetMean(GetHandle(tag));
 }
 size_t Statistics::GetNumSamples(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().stats_collectors_[handle].TotalSamples();
+  return Instance().stats_collectors_.at(handle).TotalSamples();
 }
 size_t Statistics::GetNumSamples(std::string const& tag) {
   return GetNumSamples(GetHandle(tag));
 }
 double Statistics::GetVariance(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().stats_collectors_[handle].LazyVariance();
+  return Instance().stats_collectors_.at(handle).LazyVariance();
 }
 double Statistics::GetVariance(std::string const& tag) {
   return GetVariance(GetHandle(tag));
 }
 double Statistics::GetMin(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().stats_collectors_[handle].Min();
+  return Instance().stats_collectors_.at(handle).Min();
 }
 double Statistics::GetMin(std::string const& tag) {
   return GetMin(GetHandle(tag));
 }
 double Statistics::GetMax(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().stats_collectors_[handle].Max();
+  return Instance().stats_collectors_.at(handle).Max();
 }
 double Statistics::GetMax(std::string const& tag) {
   return GetMax(GetHandle(tag));
 }
 double Statistics::GetHz(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().stats_collectors_[handle].MeanCallsPerSec();
+  return Instance().stats_collectors_.at(handle).MeanCallsPerSec();
 }
 double Statistics::GetHz(std::string const& tag) {
   return GetHz(GetHandle(tag));
@@ -137,35 +137,35 @@ double Statistics::GetMeanDeltaTime(std::string const& tag) {
 }
 double Statistics::GetMeanDeltaTime(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().stats_collectors_[handle].MeanDeltaTime();
+  return Instance().stats_collectors_.at(handle).MeanDeltaTime();
 }
 double Statistics::GetMaxDeltaTime(std::string const& tag) {
   return GetMaxDeltaTime(GetHandle(tag));
 }
 double Statistics::GetMaxDeltaTime(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().stats_collectors_[handle].MaxDeltaTime();
+  return Instance().stats_collectors_.at(handle).MaxDeltaTime();
 }
 double Statistics::GetMinDeltaTime(std::string const& tag) {
   return GetMinDeltaTime(GetHandle(tag));
 }
 double Statistics::GetMinDeltaTime(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().stats_collectors_[handle].MinDeltaTime();
+  return Instance().stats_collectors_.at(handle).MinDeltaTime();
 }
 double Statistics::GetLastDeltaTime(std::string const& tag) {
   return GetLastDeltaTime(GetHandle(tag));
 }
 double Statistics::GetLastDeltaTime(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().stats_collectors_[handle].GetLastDeltaTime();
+  return Instance().stats_collectors_.at(handle).GetLastDeltaTime();
 }
 double Statistics::GetVarianceDeltaTime(std::string const& tag) {
   return GetVarianceDeltaTime(GetHandle(tag));
 }
 double Statistics::GetVarianceDeltaTime(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().stats_collectors_[handle].LazyVarianceDeltaTime();
+  return Instance().stats_collectors_.at(handle).LazyVarianceDeltaTime();
 }
 
 std::string Statistics::SecondsToTimeString(double seconds) {
diff --git a/aslam_cv_common/src/timer.cc b/aslam_cv_common/src/timer.cc
index 214956a..6eca53a 100755
--- a/aslam_cv_common/src/timer.cc
+++ b/aslam_cv_common/src/timer.cc
@@ -103,12 +103,12 @@ size_t TimerImpl::GetHandle() const {
 
 void Timing::AddTime(size_t handle, double seconds) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  timers_[handle].AddValue(seconds);
+  timers_.at(handle).AddValue(seconds);
 }
 
 double Timing::GetTotalSeconds(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().timers_[handle].Sum();
+  return Instance().timers_.at(handle).Sum();
 }
 
 double Timing::GetTotalSeconds(const std::string& tag) {
@@ -117,7 +117,7 @@ double Timing::GetTotalSeconds(const std::string& tag) {
 
 double Timing::GetMeanSeconds(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().timers_[handle].Mean();
+  return Instance().timers_.at(handle).Mean();
 }
 
 double Timing::GetMeanSeconds(const std::string& tag) {
@@ -126,7 +126,7 @@ double Timing::GetMeanSeconds(const std::string& tag) {
 
 size_t Timing::GetNumSamples(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().timers_[handle].TotalSamples();
+  return Instance().timers_.at(handle).TotalSamples();
 }
 
 size_t Timing::GetNumSamples(const std::string& tag) {
@@ -135,7 +135,7 @@ size_t Timing::GetNumSamples(const std::string& tag) {
 
 double Timing::GetVarianceSeconds(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().timers_[handle].LazyVariance();
+  return Instance().timers_.at(handle).LazyVariance();
 }
 
 double Timing::GetVarianceSeconds(const std::string& tag) {
@@ -144,7 +144,7 @@ double Timing::GetVarianceSeconds(const std::string& tag) {
 
 double Timing::GetMinSeconds(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().timers_[handle].Min();
+  return Instance().timers_.at(handle).Min();
 }
 
 double Timing::GetMinSeconds(const std::string& tag) {
@@ -153,7 +153,7 @@ double Timing::GetMinSeconds(const std::string& tag) {
 
 double Timing::GetMaxSeconds(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return Instance().timers_[handle].Max();
+  return Instance().timers_.at(handle).Max();
 }
 
 double Timing::GetMaxSeconds(const std::string& tag) {
@@ -162,7 +162,7 @@ double Timing::GetMaxSeconds(const std::string& tag) {
 
 double Timing::GetHz(size_t handle) {
   std::lock_guard<std::mutex> lock(Instance().mutex_);
-  return 1.0 / Instance().timers_[handle].RollingMean();
+  return 1.0 / Instance().timers_.at(handle).RollingMean();
 }
 
 double Timing::GetHz(const std::string& tag) {
-- 
2.43.0


From ab30ca7a04f04953b48bfae966a232f57988f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 22/45] fix: printing camera and distortion types does not race
 on a lazily filled static map

---
 .../include/aslam/cameras/camera-inl.h        | 16 +++++++--------
 .../include/aslam/cameras/distortion-inl.h    | 20 +++++++++----------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera-inl.h b/aslam_cv_cameras/include/aslam/cameras/camera-inl.h
index f9b6fd5..c3392ea 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera-inl.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera-inl.h
@@ -39,14 +39,14 @@ bool Camera::isKeypointVisibleWithMargin(
 }
 
 inline std::ostream& operator<<(std::ostream& out, const Camera::Type& value) {
-  static std::map<Camera::Type, std::string> names;
-  if (names.size() == 0) {
-    #define INSERT_ELEMENT(type, val) names[type::val] = #val
-    INSERT_ELEMENT(Camera::Type, kPinhole);
-    INSERT_ELEMENT(Camera::Type, kUnifiedProjection);
-    #undef INSERT_ELEMENT
-  }
-  return out << names[value];
+  static const std::map<Camera::Type, std::string> names = {
+    #define ELEMENT(type, val) {type::val, #val}
+    ELEMENT(Camera::Type, kPinhole),
+    ELEMENT(Camera::Type, kUnifiedProjection)
+    #undef ELEMENT
+  };
+  const std::map<Camera::Type, std::string>::const_iterator it = names.find(value);
+  return out << (it == names.end() ? std::string() : it->second);
 }
 
 }  // namespace aslam
diff --git a/aslam_cv_cameras/include/aslam/cameras/distortion-inl.h b/aslam_cv_cameras/include/aslam/cameras/distortion-inl.h
index d348f33..03dadac 100644
--- a/aslam_cv_cameras/include/aslam/cameras/distortion-inl.h
+++ b/aslam_cv_cameras/include/aslam/cameras/distortion-inl.h
@@ -3,16 +3,16 @@
 namespace aslam {
 
 inline std::ostream& operator<<(std::ostream& out, const Distortion::Type& value) {
-  static std::map<Distortion::Type, std::string> names;
-  if (names.size() == 0) {
-    #define INSERT_ELEMENT(type, val) names[type::val] = #val
-    INSERT_ELEMENT(Distortion::Type, kNoDistortion);
-    INSERT_ELEMENT(Distortion::Type, kEquidistant);
-    INSERT_ELEMENT(Distortion::Type, kFisheye);
-    INSERT_ELEMENT(Distortion::Type, kRadTan);
-    #undef INSERT_ELEMENT
-  }
-  return out << names[value];
+  static const std::map<Distortion::Type, std::string> names = {
+    #define ELEMENT(type, val) {type::val, #val}
+    ELEMENT(Distortion::Type, kNoDistortion),
+    ELEMENT(Distortion::Type, kEquidistant),
+    ELEMENT(Distortion::Type, kFisheye),
+    ELEMENT(Distortion::Type, kRadTan)
+    #undef ELEMENT
+  };
+  const std::map<Distortion::Type, std::string>::const_iterator it = names.find(value);
+  return out << (it == names.end() ? std::string() : it->second);
 }
 
 }  // namespace aslam
-- 
2.43.0


From f4ffb62d2e153909978a975c166389df8848d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 23/45] fix: removePointsFromFullestCellsUntilSize aborts when
 the fullest cell holds one point

The limit per cell passed on was one less than the size of the fullest cell,
that is zero once every cell holds at most one point, which
removeWeightedPointsFromOverfullCell refuses. Remove the weakest point of the
fullest cell directly.
---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index 5b2bb78..7ea95b5 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -258,10 +258,10 @@ void WeightedOccupancyGrid<PointType>::removePointsFromFullestCellsUntilSize(
     size_t max_total_num_points) {
   CHECK_GT(max_total_num_points, 0u);
   while (getNumPoints() > max_total_num_points) {
-    const GridCoordinates fullest_cell_coords = getFullestGridCell();
-    const size_t max_cell_count = getGridCell(fullest_cell_coords).size();
-    removeWeightedPointsFromOverfullCell(
-        fullest_cell_coords, max_cell_count - 1);
+    PointList& fullest_cell = getGridCell(getFullestGridCell());
+    fullest_cell.erase(
+        std::min_element(fullest_cell.begin(), fullest_cell.end()));
+    --current_num_points_;
   }
 }
 
-- 
2.43.0


From a906713fe65aa91e9cb87f3927784465a8a73515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 24/45] fix: eraseIndicesFromContainer reads the last index
 only of a non-empty list

---
 aslam_cv_common/include/aslam/common/stl-helpers-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/stl-helpers-inl.h b/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
index e8ab541..24d02b1 100644
--- a/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
+++ b/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
@@ -117,11 +117,11 @@ void eraseIndicesFromContainer(
     ContainerType* container) {
   CHECK_NOTNULL(container);
   CHECK_EQ(internal::dynamicSize(*container), expected_initial_count);
-  CHECK_LT(ordered_indices_to_erase.back(), expected_initial_count);
 
   if (ordered_indices_to_erase.empty()) {
     return;
   }
+  CHECK_LT(ordered_indices_to_erase.back(), expected_initial_count);
 
   const size_t erase_count = ordered_indices_to_erase.size();
   CHECK_LE(erase_count, expected_initial_count);
-- 
2.43.0


From 52c96ce782fc4f389286e360ec6a9009a474f9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 25/45] fix: eraseIndicesFromVector refuses repeated indices

---
 aslam_cv_common/include/aslam/common/stl-helpers.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_common/include/aslam/common/stl-helpers.h b/aslam_cv_common/include/aslam/common/stl-helpers.h
index aa9d95c..e061928 100644
--- a/aslam_cv_common/include/aslam/common/stl-helpers.h
+++ b/aslam_cv_common/include/aslam/common/stl-helpers.h
@@ -200,6 +200,7 @@ inline std::vector<ElementType, Allocator> eraseIndicesFromVector(
   for (typename std::vector<size_t>::const_iterator it = mutable_indices_to_delete.begin();
       it != mutable_indices_to_delete.end(); ++it) {
     typename std::vector<ElementType, Allocator>::const_iterator it_block_end = data.begin() + *it;
+    CHECK(it_block_begin <= it_block_end) << "The indices to delete must be unique.";
     if (it_block_begin != it_block_end) {
       std::copy(it_block_begin, it_block_end, std::back_inserter(reduced_vector));
     }
-- 
2.43.0


From 770b2ee700e8cc2bb156cb662a5264a1b2911244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 26/45] fix: the copy constructor of FeatureDescriptorRef read
 owned_ before it was set

---
 .../include/aslam/common/feature-descriptor-ref-inl.h           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
index 643ec5a..3d179a1 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
@@ -121,7 +121,7 @@ operator=(const FeatureDescriptorRefBase<unsigned char, WriteAccessors>& lhs) {
 inline FeatureDescriptorRefBase<unsigned char, WriteAccessors>::
     FeatureDescriptorRefBase(
         const FeatureDescriptorRefBase<unsigned char, WriteAccessors>& lhs)
-    : Base(nullptr, 0) {
+    : Base(nullptr, 0), owned_(false) {
   if (lhs.owned_) {
     Allocate(lhs.size_bytes_);
     CHECK_EQ(lhs.size_bytes_, size_bytes_);
-- 
2.43.0


From 39c286e867a0daed6baeb4cf966075529878b126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 27/45] fix: FeatureDescriptorRef::set_data() leaked the data
 it owned

---
 .../include/aslam/common/feature-descriptor-ref-inl.h          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
index 3d179a1..df80527 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
@@ -172,6 +172,9 @@ FeatureDescriptorRefBase<unsigned char, WriteAccessors>::data() {
 
 inline void FeatureDescriptorRefBase<unsigned char, WriteAccessors>::set_data(
     unsigned char* data, bool owned) {
+  if (owned_ && data_ != data) {
+    delete[] data_;
+  }
   data_ = data;
   owned_ = owned;
 }
-- 
2.43.0


From b6a6adb5e542fa5992f58a032ecb532d467f8d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 28/45] fix: a released FeatureDescriptorRef kept its size and
 let null data be accessed

---
 .../include/aslam/common/feature-descriptor-ref-inl.h            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
index df80527..ed8ab25 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
@@ -81,6 +81,7 @@ inline void FeatureDescriptorRefBase<unsigned char, WriteAccessors>::Release() {
   if (owned_) {
     delete[] data_;
     data_ = nullptr;
+    size_bytes_ = 0u;
     owned_ = false;
   }
 }
-- 
2.43.0


From ae44ce4ae25c626c4c939ff2ac2a028a1c7713f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 29/45] fix: copying a OneDimensionAdapter that owns its matrix
 freed it twice

---
 aslam_cv_common/include/aslam/common/stl-helpers.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_common/include/aslam/common/stl-helpers.h b/aslam_cv_common/include/aslam/common/stl-helpers.h
index e061928..96d8ef1 100644
--- a/aslam_cv_common/include/aslam/common/stl-helpers.h
+++ b/aslam_cv_common/include/aslam/common/stl-helpers.h
@@ -231,6 +231,7 @@ struct OneDimensionAdapter {
   OneDimensionAdapter(DynamicMatrix* _matrix)
   : matrix(CHECK_NOTNULL(_matrix)), allocated_self(false) {}
   OneDimensionAdapter() : matrix(new DynamicMatrix), allocated_self(true) {}
+  OneDimensionAdapter(const OneDimensionAdapter&) = delete;
   ~OneDimensionAdapter() {
     if (allocated_self) {
       delete matrix;
-- 
2.43.0


From 41a67812380c83c38b3d8e44a71d4139a3762b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 30/45] fix: DescriptorMean wrote out of bounds for descriptors
 longer than the first

---
 .../include/aslam/common/feature-descriptor-ref-inl.h            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
index ed8ab25..5d926f3 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
@@ -205,6 +205,7 @@ void DescriptorMean(
   std::vector<int> sums;
   sums.resize(features[0]->size() * 8, 0);
   for (const FeatureDescriptorRef* feature : features) {
+    CHECK_EQ(feature->size(), mean->size());
     for (size_t bit = 0; bit < feature->size() * 8; ++bit) {
       if (GetBit(bit, feature->ToConstRef())) {
         ++sums[bit];
-- 
2.43.0


From 6d45b31be1ba291c4b62ff181f18110dbf75712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 31/45] fix: FlipNRandomBits refused to flip all bits

---
 aslam_cv_common/include/aslam/common/feature-descriptor-ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref.h
index 7e536e5..43cf1b3 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref.h
@@ -134,7 +134,7 @@ inline void FlipNRandomBits(size_t num_bits_to_flip, FeatureDescriptorRef* descr
   int n(0);
   std::generate_n(
       std::back_inserter(bits_to_flip), descriptor_size_bits, [n]()mutable {return n++;});
-  CHECK_LT(num_bits_to_flip, bits_to_flip.size()) << "Cannot flip more than everything.";
+  CHECK_LE(num_bits_to_flip, bits_to_flip.size()) << "Cannot flip more than everything.";
   std::random_shuffle(bits_to_flip.begin(), bits_to_flip.end());
   for (size_t i = 0; i < num_bits_to_flip; ++i) {
     FlipBit(bits_to_flip[i], descriptor);
-- 
2.43.0


From fe0f2f14a3827828a000eb41430d6511dfad3c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:17 +0000
Subject: [PATCH 32/45] fix: Hamming read beyond short descriptors, ignored the
 bytes behind the last full 16 and overflowed its counters

---
 .../include/aslam/common/hamming-inl.h        | 19 ++++++++++---------
 .../include/aslam/common/hamming.h            | 16 +++++++---------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/hamming-inl.h b/aslam_cv_common/include/aslam/common/hamming-inl.h
index 0d19583..62c53c9 100644
--- a/aslam_cv_common/include/aslam/common/hamming-inl.h
+++ b/aslam_cv_common/include/aslam/common/hamming-inl.h
@@ -105,12 +105,12 @@ const int numberOf128BitWords) {
   xmm7 = _mm_load_si128(reinterpret_cast<const __m128i*>(POPCOUNT_4bit));
   xmm6 = _mm_load_si128(reinterpret_cast<const __m128i*>(MASK_4bit));
   xmm5 = _mm_setzero_si128();  // xmm5 -- global accumulator.
+  xmm4 = _mm_setzero_si128();  // xmm4 -- local accumulator.
 
   const __m128i* end = signature1 + numberOf128BitWords;
-  xmm4 = xmm5;  // xmm4 -- local accumulator.
   const __m128i shiftval = _mm_set_epi32(0, 0, 0, 4);
-  do {
-    xmm0 = _mm_xor_si128(*signature1++, *signature2++);
+  while (signature1 < end) {
+    xmm0 = _mm_xor_si128(_mm_loadu_si128(signature1++), _mm_loadu_si128(signature2++));
     xmm1 = xmm0;
     xmm1 = _mm_srl_epi16(xmm1, shiftval);
     xmm0 = _mm_and_si128(xmm0, xmm6);  // xmm0 := lower nibbles.
@@ -121,16 +121,17 @@ const int numberOf128BitWords) {
     xmm3 = _mm_shuffle_epi8(xmm3, xmm1);  // Using PSHUFB.
     xmm4 = _mm_add_epi8(xmm4, xmm2);  // Update local.
     xmm4 = _mm_add_epi8(xmm4, xmm3);  // Accumulator.
-  }while (signature1 < end);
-  // Update global accumulator(two 32-bits counters).
-  xmm4 = _mm_sad_epu8(xmm4, xmm5);
-  xmm5 = _mm_add_epi32(xmm5, xmm4);
+    // Update global accumulator(two 32-bits counters) before the local 8-bit
+    // counters overflow.
+    xmm4 = _mm_sad_epu8(xmm4, _mm_setzero_si128());
+    xmm5 = _mm_add_epi32(xmm5, xmm4);
+    xmm4 = _mm_setzero_si128();
+  }
   // finally add together 32-bits counters stored in global accumulator.
   // __asm__ volatile(
   //  "movhlps  %%xmm5, %%xmm0 \n"
   // TODO(slynen): fix with appropriate intrinsic
-  xmm0 = _mm_cvtps_epi32(_mm_movehl_ps(_mm_cvtepi32_ps(xmm0),
-      _mm_cvtepi32_ps(xmm5)));
+  xmm0 = _mm_srli_si128(xmm5, 8);
   xmm0 = _mm_add_epi32(xmm0, xmm5);
   result = _mm_cvtsi128_si32(xmm0);
   return result;
diff --git a/aslam_cv_common/include/aslam/common/hamming.h b/aslam_cv_common/include/aslam/common/hamming.h
index cf57f11..4a6acb7 100644
--- a/aslam_cv_common/include/aslam/common/hamming.h
+++ b/aslam_cv_common/include/aslam/common/hamming.h
@@ -99,15 +99,13 @@ class  Hamming {
   static ResultType evaluate(const unsigned char* a,
                              const unsigned char* b,
                              const int size) {
-#ifdef __ARM_NEON
-    return NEONPopcntofXORed(reinterpret_cast<const uint8x16_t*>(a),
-                             reinterpret_cast<const uint8x16_t*>(b),
-                             size / 16);
-#else
-    return SSSE3PopcntofXORed(reinterpret_cast<const __m128i*>(a),
-                              reinterpret_cast<const __m128i*>(b),
-                              size / 16);
-#endif  // __ARM_NEON
+    const int num_128_bit_words = size / 16;
+    ResultType result = PopcntofXORed(a, b, num_128_bit_words);
+    // The bytes behind the last full word.
+    for (int i = num_128_bit_words * 16; i < size; ++i) {
+      result += __builtin_popcount(a[i] ^ b[i]);
+    }
+    return result;
   }
 
   // This will count the bits in a ^ b.
-- 
2.43.0


From e346e559216a9f73b7e2fc7753b4ba7d89601f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:04 +0000
Subject: [PATCH 33/45] fix: rolling mean of an accumulator without samples
 divides by zero

---
 aslam_cv_common/include/aslam/common/statistics/accumulator.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_cv_common/include/aslam/common/statistics/accumulator.h b/aslam_cv_common/include/aslam/common/statistics/accumulator.h
index fbb8613..1889a46 100644
--- a/aslam_cv_common/include/aslam/common/statistics/accumulator.h
+++ b/aslam_cv_common/include/aslam/common/statistics/accumulator.h
@@ -65,6 +65,9 @@ class Accumulator {
   // Rolling mean is only used for fixed sized data for now. We don't need this
   // function for our infinite accumulator at this point.
   SumType RollingMean() const {
+    if (samples_.empty()) {
+      return static_cast<SumType>(0.0);
+    }
     if (WindowSize < kInfiniteWindowSize) {
       return window_sum_ / std::min(sample_index_, WindowSize);
     } else {
-- 
2.43.0


From 859e74f8639fa7c0924a6dc44a3145462a710334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:29 +0000
Subject: [PATCH 34/45] fix: accept nested rows of one column when reading a
 matrix from YAML

The check refused the rows of length one it is there for and let longer
ones through, which were cut off silently.
---
 aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
index 8a015ab..2c9f201 100644
--- a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
+++ b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
@@ -61,7 +61,7 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
         for (IndexType j = 0; j < cols; ++j) {
           CHECK(it != it_end);
           if (it->IsSequence()) {
-            CHECK(it->size() != 1u) << "Wrong dimension of Eigen-type matrix!";
+            CHECK(it->size() == 1u) << "Wrong dimension of Eigen-type matrix!";
             M(i, j) = it->begin()->as<Scalar>();
           } else {
             M(i, j) = it->as<Scalar>();
-- 
2.43.0


From 6c121753c38b74d9da55e6011bdcb3f83f065c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:29 +0000
Subject: [PATCH 35/45] fix: refuse negative matrix sizes in YAML

They reached Eigen's resize, which requires non-negative sizes.
---
 .../aslam/common/yaml-serialization-eigen.h    | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
index 2c9f201..a00273a 100644
--- a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
+++ b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
@@ -147,6 +147,12 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
       return false;
     }
 
+    if (rows < 0 || cols < 0) {
+      LOG(ERROR) << "The matrix size (" << rows << ", " << cols
+                 << ") is negative.";
+      return false;
+    }
+
     M.resize(rows, Eigen::NoChange);
 
     return decodeEigenMatrixData(node["data"], rows, cols, M);
@@ -172,6 +178,12 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
       return false;
     }
 
+    if (rows < 0 || cols < 0) {
+      LOG(ERROR) << "The matrix size (" << rows << ", " << cols
+                 << ") is negative.";
+      return false;
+    }
+
     M.resize(Eigen::NoChange, cols);
 
     return decodeEigenMatrixData(node["data"], rows, cols, M);
@@ -192,6 +204,12 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
     IndexType rows = node["rows"].as<IndexType>();
     IndexType cols = node["cols"].as<IndexType>();
 
+    if (rows < 0 || cols < 0) {
+      LOG(ERROR) << "The matrix size (" << rows << ", " << cols
+                 << ") is negative.";
+      return false;
+    }
+
     M.resize(rows, cols);
 
     return decodeEigenMatrixData(node["data"], rows, cols, M);
-- 
2.43.0


From baa57d55f8b482f685d3c69da0a98ef2580e8215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:29 +0000
Subject: [PATCH 36/45] fix: report failed writes from YAML::Save

Save returned true even if the stream failed while writing, for instance
because the file could not be opened or the disk is full.
---
 aslam_cv_common/include/aslam/common/yaml-serialization.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/yaml-serialization.h b/aslam_cv_common/include/aslam/common/yaml-serialization.h
index 0ae6ca3..b6f9a1c 100644
--- a/aslam_cv_common/include/aslam/common/yaml-serialization.h
+++ b/aslam_cv_common/include/aslam/common/yaml-serialization.h
@@ -68,7 +68,8 @@ bool Save(const ObjectType& object, std::ostream* ofs) {
     LOG(ERROR)<< "Encountered exception while saving yaml " << e.what();
     return false;
   }
-  return true;
+  ofs->flush();
+  return ofs->good();
 }
 
 template <typename T>
-- 
2.43.0


From ef5aeda8482f3d227e2447019d7095a8813eb78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:29 +0000
Subject: [PATCH 37/45] fix: do not ignore failed writes in
 YamlFileSerializable::serializeToFile

The file was left incomplete without notice.
---
 aslam_cv_common/include/aslam/common/yaml-file-serialization.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_cv_common/include/aslam/common/yaml-file-serialization.h b/aslam_cv_common/include/aslam/common/yaml-file-serialization.h
index e6a62b5..d82ccc0 100644
--- a/aslam_cv_common/include/aslam/common/yaml-file-serialization.h
+++ b/aslam_cv_common/include/aslam/common/yaml-file-serialization.h
@@ -27,6 +27,8 @@ class YamlFileSerializable {
         << "Failed to open file " << file_name << " for writing.";
     output_file_stream << yaml_node;
     output_file_stream.close();
+    CHECK(output_file_stream.good())
+        << "Failed to write to file " << file_name << ".";
   }
 
   bool deserializeFromFile(const std::string& file_name) {
-- 
2.43.0


From 691a250c9e5c4a7739a70c1c6ef200ff14dfe987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:12 +0000
Subject: [PATCH 38/45] fix: equidistant distortion: the Jacobian at the image
 center is the identity

The point is left unchanged there, so its derivative is the identity, not
zero; a zero Jacobian makes the projection look rank deficient for points on
the optical axis.
---
 aslam_cv_cameras/src/distortion-equidistant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/distortion-equidistant.cc b/aslam_cv_cameras/src/distortion-equidistant.cc
index 23138e8..8729a88 100644
--- a/aslam_cv_cameras/src/distortion-equidistant.cc
+++ b/aslam_cv_cameras/src/distortion-equidistant.cc
@@ -38,7 +38,7 @@ void EquidistantDistortion::distortUsingExternalCoefficients(
   if (r < 1e-10) {
     // Keypoint remains unchanged.
     if(out_jacobian)
-      out_jacobian->setZero();
+      out_jacobian->setIdentity();
     return;
   }
 
-- 
2.43.0


From a2587e6299bd30c81cef390f250000f7db67de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:12 +0000
Subject: [PATCH 39/45] fix: fisheye distortion: parameter Jacobian close to
 the image center

Close to the center both coordinates are multiplied by 2 * tan(w / 2) / w, so
the derivative by w is the point times the derivative of that factor; the
point was left out.
---
 aslam_cv_cameras/src/distortion-fisheye.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_cameras/src/distortion-fisheye.cc b/aslam_cv_cameras/src/distortion-fisheye.cc
index 18bbf58..6c05667 100644
--- a/aslam_cv_cameras/src/distortion-fisheye.cc
+++ b/aslam_cv_cameras/src/distortion-fisheye.cc
@@ -104,8 +104,9 @@ void FisheyeDistortion::distortParameterJacobian(const Eigen::VectorXd* dist_coe
     out_jacobian->setZero();
   }
   else if (r_u * r_u < 1e-5) {
-    out_jacobian->setOnes();
-    *out_jacobian *= (w - sin(w)) / (w * w * cos(w / 2) * cos(w / 2));
+    // Derivative of 2 * tan(w / 2) / w, which the coordinates get multiplied by.
+    const double dscale_d_w = (w - sin(w)) / (w * w * cos(w / 2) * cos(w / 2));
+    *out_jacobian << u * dscale_d_w, v * dscale_d_w;
   }
   else {
     const double dxd_d_w = (2 * u * (tanwhalfsq / 2 + 0.5))
-- 
2.43.0


From d7419be40af5bb8a6f10b9b4ce2770482c489a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:41 +0000
Subject: [PATCH 40/45] fix: Camera3DLidar::project3Functional uses the
 external intrinsics it is given

---
 .../include/aslam/cameras/camera-3d-lidar-inl.h           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
index df58686..78197cf 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
@@ -26,16 +26,16 @@ const ProjectionResult Camera3DLidar::project3Functional(
   const Eigen::Matrix<ScalarType, 3, 1> bearing_vector = point_3d.normalized();
 
   (*out_keypoint)[0] = (std::atan2(bearing_vector.x(), bearing_vector.z()) +
-                        horizontalCenter()) /
-                       horizontalResolution();
+                        intrinsics_external[Parameters::kHorizontalCenterRad]) /
+                       intrinsics_external[Parameters::kHorizontalResolutionRad];
 
   if ((*out_keypoint)[0] < 0.0) {
     (*out_keypoint)[0] = imageWidth() + (*out_keypoint)[0];
   }
 
   (*out_keypoint)[1] =
-      ((std::asin(bearing_vector.y()) + verticalCenter()) /
-       verticalResolution());
+      ((std::asin(bearing_vector.y()) + intrinsics_external[Parameters::kVerticalCenterRad]) /
+       intrinsics_external[Parameters::kVerticalResolutionRad]);
 
   return evaluateProjectionResult(*out_keypoint, point_3d);
 }
-- 
2.43.0


From cdc1edd7309a042557e593dd898affa4e62d8149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:41 +0000
Subject: [PATCH 41/45] fix: project4's Jacobian has the sign of the point that
 is projected

---
 aslam_cv_cameras/src/camera.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/camera.cc b/aslam_cv_cameras/src/camera.cc
index a6769d7..018769d 100644
--- a/aslam_cv_cameras/src/camera.cc
+++ b/aslam_cv_cameras/src/camera.cc
@@ -367,7 +367,10 @@ const ProjectionResult Camera::project4(
   Eigen::Matrix<double, 2, 3> Je;
   ProjectionResult ret = project3(point_3d, out_keypoint, &Je);
   out_jacobian->setZero();
-  out_jacobian->topLeftCorner<2, 3>() = Je;
+  if (point_4d[3] < 0)
+    out_jacobian->topLeftCorner<2, 3>() = -Je;
+  else
+    out_jacobian->topLeftCorner<2, 3>() = Je;
 
   return ret;
 }
-- 
2.43.0


From 4d31445f82d7d282923b367e7e9fda5059aacde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:32 +0000
Subject: [PATCH 42/45] fix: VisualNPipeline::shutdown changes the state under
 the mutex

A thread that has just found the pipeline running and is about to wait missed
the notification and never woke up.
---
 aslam_cv_pipeline/src/visual-npipeline.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index a6b0998..395e128 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -53,7 +53,10 @@ VisualNPipeline::~VisualNPipeline() {
 }
 
 void VisualNPipeline::shutdown() {
-  shutdown_ = true;
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    shutdown_ = true;
+  }
   condition_not_empty_.notify_all();
   condition_not_full_.notify_all();
   thread_pool_->stop();
-- 
2.43.0


From 4c57315c6b50cf0e9b76569b0f9b3b1b3e7833b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:32 +0000
Subject: [PATCH 43/45] fix: VisualNPipeline::work refuses the first index that
 is out of range

---
 aslam_cv_pipeline/src/visual-npipeline.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index 395e128..e996f95 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -217,7 +217,7 @@ size_t VisualNPipeline::getNumFramesProcessing() const {
 
 void VisualNPipeline::work(size_t camera_index, const cv::Mat& image,
                            int64_t timestamp_nanoseconds) {
-  CHECK_LE(camera_index, pipelines_.size());
+  CHECK_LT(camera_index, pipelines_.size());
   std::shared_ptr<VisualFrame> frame;
   frame = pipelines_[camera_index]->processImage(image, timestamp_nanoseconds);
 
-- 
2.43.0


From 14f8a3428cb04f2cef88a6fa048144cb22933d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:32 +0000
Subject: [PATCH 44/45] fix: unified projection: set the Jacobian by the point
 for invalid projections

---
 aslam_cv_cameras/src/camera-unified-projection.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_cv_cameras/src/camera-unified-projection.cc b/aslam_cv_cameras/src/camera-unified-projection.cc
index 16202c4..5609634 100644
--- a/aslam_cv_cameras/src/camera-unified-projection.cc
+++ b/aslam_cv_cameras/src/camera-unified-projection.cc
@@ -113,6 +113,9 @@ const ProjectionResult UnifiedProjectionCamera::project3Functional(
   // Check if point will lead to a valid projection
   const bool valid_proj = z > -(fov_parameter(xi) * d);
   if (!valid_proj) {
+    if (out_jacobian_point) {
+      out_jacobian_point->setZero();
+    }
     if (out_jacobian_intrinsics) {
       out_jacobian_intrinsics->setZero(2, kNumOfParams);
     }
-- 
2.43.0


From 2364100b0b286f5a0165cb8edf7611c0508beb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:31 +0000
Subject: [PATCH 45/45] fix: VisualNFrame keeps its frames when it is assigned
 to itself

---
 aslam_cv_frames/src/visual-nframe.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_cv_frames/src/visual-nframe.cc b/aslam_cv_frames/src/visual-nframe.cc
index 09ab075..ad1970f 100644
--- a/aslam_cv_frames/src/visual-nframe.cc
+++ b/aslam_cv_frames/src/visual-nframe.cc
@@ -39,6 +39,9 @@ VisualNFrame::VisualNFrame(const VisualNFrame& other) {
 }
 
 VisualNFrame& VisualNFrame::operator=(const VisualNFrame& other) {
+  if (this == &other) {
+    return *this;
+  }
   id_ = other.id_;
   camera_rig_ = other.camera_rig_;
   frames_.clear();
-- 
2.43.0

