From 80e264fc4a925b807d4c67186f0315568c789254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:02 +0000
Subject: [PATCH 1/7] fix: reject NaN in loop contraction mitigation and Kalman
 confidence params

---
 ink_stroke_modeler/params.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/ink_stroke_modeler/params.cc b/ink_stroke_modeler/params.cc
index d1ca809..c944ab2 100644
--- a/ink_stroke_modeler/params.cc
+++ b/ink_stroke_modeler/params.cc
@@ -48,8 +48,10 @@ const Duration kMaxSamplingWindow = Duration(10000);
 absl::Status ValidateLoopContractionMitigationParameters(
     const PositionModelerParams::LoopContractionMitigationParameters& params) {
   if (!params.is_enabled) return absl::OkStatus();
-  if (params.speed_lower_bound > params.speed_upper_bound ||
-      params.speed_lower_bound < 0) {
+  // The conditions on floating point values are written as negations so that
+  // NaN is rejected.
+  if (!(params.speed_lower_bound <= params.speed_upper_bound &&
+        params.speed_lower_bound >= 0)) {
     return absl::InvalidArgumentError(absl::Substitute(
         "LoopContractionMitigationParameters::speed_lower_bound must be "
         "smaller or equal to "
@@ -59,10 +61,10 @@ absl::Status ValidateLoopContractionMitigationParameters(
         params.speed_lower_bound, params.speed_upper_bound));
   }
 
-  if (params.interpolation_strength_at_speed_lower_bound <
-          params.interpolation_strength_at_speed_upper_bound ||
-      params.interpolation_strength_at_speed_lower_bound > 1 ||
-      params.interpolation_strength_at_speed_upper_bound < 0) {
+  if (!(params.interpolation_strength_at_speed_lower_bound >=
+            params.interpolation_strength_at_speed_upper_bound &&
+        params.interpolation_strength_at_speed_lower_bound <= 1 &&
+        params.interpolation_strength_at_speed_upper_bound >= 0)) {
     return absl::InvalidArgumentError(absl::Substitute(
         "LoopContractionMitigationParameters::interpolation_strength_at_speed_"
         "lower_bound must be greater or equal to "
@@ -82,8 +84,8 @@ absl::Status ValidateLoopContractionMitigationParameters(
         kMaxDiscreteSamples, params.min_discrete_speed_samples));
   }
 
-  if (params.min_speed_sampling_window <= Duration(0) ||
-      params.min_speed_sampling_window > kMaxSamplingWindow) {
+  if (!(params.min_speed_sampling_window > Duration(0) &&
+        params.min_speed_sampling_window <= kMaxSamplingWindow)) {
     return absl::InvalidArgumentError(absl::Substitute(
         "LoopContractionMitigationParameters::min_speed_"
         "sampling_windowmust be in the "
@@ -223,8 +225,8 @@ absl::Status ValidateKalmanPredictorParams(
   RETURN_IF_ERROR(ValidateGreaterThanZero(
       confidence_params.max_linear_deviation,
       "KalmanPredictorParams::ConfidenceParams::max_linear_deviation"));
-  if (confidence_params.baseline_linearity_confidence < 0 ||
-      confidence_params.baseline_linearity_confidence > 1) {
+  if (!(confidence_params.baseline_linearity_confidence >= 0 &&
+        confidence_params.baseline_linearity_confidence <= 1)) {
     return absl::InvalidArgumentError(absl::Substitute(
         "KalmanPredictorParams::ConfidenceParams::baseline_linearity_"
         "confidence must lie in the interval [0, 1]. Actual value: $0",
-- 
2.43.0


From 3e6fbcc5e59ea27483af7bb6ad1e57ddc1306fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:33 +0000
Subject: [PATCH 2/7] fix: a move input rejected for its sample count no longer
 changes the model

---
 ink_stroke_modeler/stroke_modeler.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index e7d6e23..fdd4564 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -285,14 +285,7 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
         "Received move event while no stroke is in-progress");
   }
 
-  Vec2 corrected_position = wobble_smoother_.Update(input.position, input.time);
-  stylus_state_modeler_.Update(corrected_position, input.time,
-                               {
-                                   .pressure = input.pressure,
-                                   .tilt = input.tilt,
-                                   .orientation = input.orientation,
-                               });
-
+  // Check this first, so that a rejected input leaves the model untouched.
   absl::StatusOr<int> n_steps = NumberOfStepsBetweenInputs(
       position_modeler_.CurrentState(), last_input_->input, input,
       stroke_model_params_->sampling_params,
@@ -300,6 +293,14 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
   if (!n_steps.ok()) {
     return n_steps.status();
   }
+
+  Vec2 corrected_position = wobble_smoother_.Update(input.position, input.time);
+  stylus_state_modeler_.Update(corrected_position, input.time,
+                               {
+                                   .pressure = input.pressure,
+                                   .tilt = input.tilt,
+                                   .orientation = input.orientation,
+                               });
   tip_state_buffer_.clear();
   tip_state_buffer_.reserve(*n_steps);
   position_modeler_.UpdateAlongLinearPath(
-- 
2.43.0


From d60e9ba32474683aab4aecb7a92bfeb1f303ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:33 +0000
Subject: [PATCH 3/7] fix: Restore no longer half-restores a state saved in an
 earlier stroke

---
 ink_stroke_modeler/stroke_modeler.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index fdd4564..090e530 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -216,6 +216,12 @@ absl::Status StrokeModeler::ProcessDownEvent(const Input &input,
     predictor_->Update(input.position, input.time);
   }
 
+  // A state saved during an earlier stroke can't be restored into this one; the
+  // sub-modelers have already dropped theirs.
+  if (saved_last_input_.has_value()) {
+    save_active_ = false;
+  }
+
   // We don't correct the position on the down event, so we set
   // corrected_position to use the input position.
   last_input_ = {.input = input, .corrected_position = input.position};
-- 
2.43.0


From ddc555dc26fa48ac4752b903922ade54916256d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:33 +0000
Subject: [PATCH 4/7] fix: Save no longer keeps the predictor of an earlier
 Save when prediction is disabled

---
 ink_stroke_modeler/stroke_modeler.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 090e530..0e43280 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -330,9 +330,7 @@ void StrokeModeler::Save() {
   stylus_state_modeler_.Save();
   loop_contraction_mitigation_modeler_.Save();
   saved_last_input_ = last_input_;
-  if (predictor_ != nullptr) {
-    saved_predictor_ = predictor_->MakeCopy();
-  }
+  saved_predictor_ = predictor_ != nullptr ? predictor_->MakeCopy() : nullptr;
   save_active_ = true;
 }
 
-- 
2.43.0


From 9093c271e783533d20085dc00dea28abb93aa700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:33 +0000
Subject: [PATCH 5/7] fix: InterpAngle no longer hangs on enormous or infinite
 angles

---
 ink_stroke_modeler/internal/utils.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ink_stroke_modeler/internal/utils.h b/ink_stroke_modeler/internal/utils.h
index c636e09..6946e4b 100644
--- a/ink_stroke_modeler/internal/utils.h
+++ b/ink_stroke_modeler/internal/utils.h
@@ -18,6 +18,7 @@
 #define INK_STROKE_MODELER_INTERNAL_UTILS_H_
 
 #include <algorithm>
+#include <cmath>
 #include <optional>
 
 #include "ink_stroke_modeler/internal/internal_types.h"
@@ -66,6 +67,9 @@ inline float InverseLerp(float a, float b, float value) {
 // interval [0, 2π). All angles are measured in radians.
 inline float InterpAngle(float start, float end, float interp_amount) {
   auto normalize_angle = [](float angle) {
+    // Far out of range, the loops below would take very many steps, or make no
+    // progress at all.
+    if (angle < -2 * kPi || angle > 4 * kPi) angle = std::fmod(angle, 2 * kPi);
     while (angle < 0) angle += 2 * kPi;
     while (angle > 2 * kPi) angle -= 2 * kPi;
     return angle;
-- 
2.43.0


From 25154fbe942bbd8874dd75363bd33a917fda240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:33 +0000
Subject: [PATCH 6/7] fix: NearestPointOnSegment no longer returns NaN for tiny
 segments

---
 ink_stroke_modeler/internal/utils.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ink_stroke_modeler/internal/utils.h b/ink_stroke_modeler/internal/utils.h
index 6946e4b..ea0e25a 100644
--- a/ink_stroke_modeler/internal/utils.h
+++ b/ink_stroke_modeler/internal/utils.h
@@ -109,8 +109,11 @@ inline float NearestPointOnSegment(Vec2 segment_start, Vec2 segment_end,
 
   Vec2 segment_vector = segment_end - segment_start;
   Vec2 projection_vector = point - segment_start;
+  float squared_length = Vec2::DotProduct(segment_vector, segment_vector);
+  // The points may be distinct, yet so close that this underflows.
+  if (squared_length == 0) return 0;
   return Clamp01(Vec2::DotProduct(projection_vector, segment_vector) /
-                 Vec2::DotProduct(segment_vector, segment_vector));
+                 squared_length);
 }
 
 // Returns a vector approximating the normal direction of the stroke based on
-- 
2.43.0


From a952db79868e8b0826d82ef2165eff4aba516a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 7/7] fix: no Kalman prediction from samples without elapsed
 time (was NaN)

---
 ink_stroke_modeler/internal/prediction/kalman_predictor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
index 6bad195..f92617d 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
@@ -94,6 +94,9 @@ std::optional<KalmanPredictor::State> KalmanPredictor::GetEstimatedState()
             sample_times_.size();
   auto dt_squared = dt * dt;
   auto dt_cubed = dt_squared * dt;
+  // If (practically) no time elapsed over the samples, there is no speed to
+  // speak of, and dividing by the time delta would yield infinities and NaNs.
+  if (!(dt_cubed > 0)) return std::nullopt;
   estimated_state.velocity /= dt;
   estimated_state.acceleration /= dt_squared;
   estimated_state.jerk /= dt_cubed;
-- 
2.43.0

