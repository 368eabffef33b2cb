From 20aabc028fe5a6af384a7c7aaa02aa356407ecd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:28 +0000
Subject: [PATCH 01/15] fix: sample Timestamp intervals to the nearest
 nanosecond in both directions without overflow

---
 resim/time/sample_interval.cc | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index 4d842c1..765e308 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -91,36 +91,47 @@ void sample_interval(
   }
   const int64_t samples = num_samples(start_time, end_time, max_abs_dt);
   const int64_t intervals = samples - 1;
-  const Duration total_time{math::safe_difference(
+  const int64_t total_time{math::safe_difference(
       end_time.time_since_epoch().count(),
       start_time.time_since_epoch().count())};
+  const int64_t sign = total_time < 0 ? -1 : 1;
+  const int64_t abs_total_time = math::safe_abs(total_time);
 
   // When we divide the range into perfect intervals, we get rational
-  // samples. We track the locations of these rational samples using a
-  // mixed number so that we don't risk integer overflow in our
+  // samples. We track the distances of these rational samples from the start
+  // using a mixed number so that we don't risk integer overflow in our
   // numerator. In particular, every rational sample position is given
   // by:
   //
-  // whole + numerator / intervals
+  // start_time + sign * (whole + numerator / intervals)
   //
   // Since we need to make a timestamp with an integer count, we
   // always just round to the nearest integer.
+  const int64_t whole_step = abs_total_time / intervals;
+  const int64_t numerator_step = abs_total_time % intervals;
   int64_t whole = 0;
   int64_t numerator = 0;
   for (int64_t ii = 0; ii < samples; ++ii) {
     // Should never overflow since rounded will be less than or equal to
     // total_time.
-    const int64_t rounded = whole + ((2 * numerator >= intervals) ? 1 : 0);
-    const Duration time{rounded};
+    const int64_t rounded =
+        whole + ((numerator >= intervals - numerator) ? 1 : 0);
+    const Duration time{sign * rounded};
 
     func(start_time + time);
 
-    // Increment
-    numerator = math::safe_sum(numerator, total_time.count());
+    if (ii == intervals) {
+      break;
+    }
 
-    // Restore the mixed number
-    whole += numerator / intervals;
-    numerator %= intervals;
+    // Increment while keeping numerator in [0, intervals)
+    whole += whole_step;
+    if (numerator >= intervals - numerator_step) {
+      numerator -= intervals - numerator_step;
+      ++whole;
+    } else {
+      numerator += numerator_step;
+    }
   }
 }
 
-- 
2.43.0


From 17a56b8aa072cc3df18c55ce4306ea2f00257d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:28 +0000
Subject: [PATCH 02/15] fix: num_samples of an empty Timestamp interval is one

---
 resim/time/sample_interval.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index 765e308..4714f5d 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -57,6 +57,9 @@ int64_t num_samples(
   const Duration total_time{math::safe_abs(math::safe_difference(
       end_time.time_since_epoch().count(),
       start_time.time_since_epoch().count()))};
+  if (total_time.count() == 0) {
+    return 1;
+  }
 
   // We want to find the smallest integer n such that:
   //
-- 
2.43.0


From 893a09b3a35390f5ff7ed3bacdb3071edf8ad776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:28 +0000
Subject: [PATCH 03/15] fix: num_samples of real intervals beyond 32 bits and
 for huge step sizes

---
 resim/time/sample_interval.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index 4714f5d..7b51507 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -6,6 +6,7 @@
 
 #include "resim/time/sample_interval.hh"
 
+#include <algorithm>
 #include <cmath>
 
 #include "resim/assert/assert.hh"
@@ -29,7 +30,12 @@ int64_t num_samples(double start_time, double end_time, double max_abs_dt) {
   //
   // n = ceil(total_time / max_abs_dt) + 1
   //
-  return static_cast<int>(std::ceil(total_time / max_abs_dt)) + 1;
+  // A non-empty interval always needs both endpoints, even if the quotient
+  // underflows to zero.
+  const double min_intervals = total_time > 0. ? 1. : 0.;
+  return static_cast<int64_t>(
+             std::max(min_intervals, std::ceil(total_time / max_abs_dt))) +
+         1;
 }
 
 void sample_interval(
-- 
2.43.0


From d45cfc8d643b6061ec079d2633f3eecfa3261928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:02 +0000
Subject: [PATCH 04/15] fix: keep a viewed object with its own call when other
 threads view or fail concurrently

A view call pushed its object and sent it in two critical sections, so another
thread could take the object into its own update. If that update failed, the
object's own call sent an empty update and reported success.
---
 resim/visualization/view.cc | 38 ++++++++++++++++++++-----------------
 resim/visualization/view.hh |  4 ++++
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/resim/visualization/view.cc b/resim/visualization/view.cc
index 6da8b9c..4d8eba6 100644
--- a/resim/visualization/view.cc
+++ b/resim/visualization/view.cc
@@ -72,29 +72,33 @@ template View &View::operator<< <FramedVector>(const FramedVector &subject);
 
 template <typename T>
 void View::view_object(ViewObject<T> view_object) {
-  {
-    // In a separate scope since flush() needs this lock
-    std::lock_guard<std::mutex> guard{primitives_mutex_};
-
-    // We simply push the primitivies in here without packing
-    // them. The whole ViewUpdate will be packed by the ViewClient.
-    // The user defined name is an std::optional so the existence
-    // of a value i.e. a custom name is not cared about here.
-    primitives_.emplace_back(ViewPrimitive{
-        .id = UUID::new_uuid(),
-        .payload = view_object.the_object,
-        .user_defined_name = view_object.user_defined_name,
-        .file_name = view_object.file_name,
-        .line_number = view_object.line_number,
-    });
-  }
+  // Hold the lock until the primitive has been sent. Otherwise another thread
+  // could send (or fail to send) it for us, in which case we couldn't report
+  // the outcome to our caller.
+  std::lock_guard<std::mutex> guard{primitives_mutex_};
+
+  // We simply push the primitivies in here without packing
+  // them. The whole ViewUpdate will be packed by the ViewClient.
+  // The user defined name is an std::optional so the existence
+  // of a value i.e. a custom name is not cared about here.
+  primitives_.emplace_back(ViewPrimitive{
+      .id = UUID::new_uuid(),
+      .payload = view_object.the_object,
+      .user_defined_name = view_object.user_defined_name,
+      .file_name = view_object.file_name,
+      .line_number = view_object.line_number,
+  });
   // Currently, we pack each primitive into its own update and send eagerly to
   // the view server.
-  flush();
+  send_primitives();
 }
 
 void View::flush() {
   std::lock_guard<std::mutex> guard{primitives_mutex_};
+  send_primitives();
+}
+
+void View::send_primitives() {
   REASSERT(client_ != nullptr, "No client interface set!");
   Status send_status = client_->send_view_update(ViewUpdate{
       .primitives = std::move(primitives_),
diff --git a/resim/visualization/view.hh b/resim/visualization/view.hh
index 5542616..30d9476 100644
--- a/resim/visualization/view.hh
+++ b/resim/visualization/view.hh
@@ -139,6 +139,10 @@ class View {
   // @param[in] The new client.
   void set_client(std::unique_ptr<ViewClientInterface> &&client);
 
+  // Transmit all currently stored primitives. The caller must hold
+  // primitives_mutex_.
+  void send_primitives();
+
   std::unique_ptr<ViewClientInterface> client_;
 
   std::vector<ViewPrimitive> primitives_;
-- 
2.43.0


From c2e47e603473a67f12154402c60f504275f87bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:02 +0000
Subject: [PATCH 05/15] fix: save the access token atomically and never load an
 empty one

The token file was truncated and then written, so a process dying in between
left an empty file that every later process returned as its token.
---
 resim/auth/device_code_client.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/resim/auth/device_code_client.cc b/resim/auth/device_code_client.cc
index 640eec4..668bfde 100644
--- a/resim/auth/device_code_client.cc
+++ b/resim/auth/device_code_client.cc
@@ -73,10 +73,17 @@ void DeviceCodeClient::refresh() {
 
 void DeviceCodeClient::save_token() {
   std::filesystem::create_directories(config_.token_path.parent_path());
+  // Write to a temporary file first so that a complete token appears at the
+  // token path in one step, even if this process dies while saving.
+  std::filesystem::path temp_path{config_.token_path};
+  temp_path += ".tmp";
   std::ofstream token_stream;
-  token_stream.open(config_.token_path);
+  token_stream.open(temp_path);
   token_stream << token_;
   token_stream.close();
+  if (token_stream.good()) {
+    std::filesystem::rename(temp_path, config_.token_path);
+  }
 }
 
 void DeviceCodeClient::load_token() {
@@ -90,6 +97,11 @@ void DeviceCodeClient::load_token() {
   std::ifstream token_is{config_.token_path};
   token_ss << token_is.rdbuf();
   token_ = token_ss.str();
+  if (token_.empty()) {
+    // An empty token is useless, so treat it like a missing one.
+    fetch_token();
+    save_token();
+  }
 }
 
 void DeviceCodeClient::fetch_token() {
-- 
2.43.0


From efacc449b4909657afb50ca9c2fd63c3395af6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:16 +0000
Subject: [PATCH 06/15] fix: FramedVector::isApprox considers frames for
 non-const arguments too

---
 resim/transforms/framed_vector.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resim/transforms/framed_vector.hh b/resim/transforms/framed_vector.hh
index 2b4c792..ee9cdf5 100644
--- a/resim/transforms/framed_vector.hh
+++ b/resim/transforms/framed_vector.hh
@@ -101,10 +101,12 @@ class FramedVector : public Eigen::Matrix<double, dims, 1> {
 
   // Because the overload of isApprox above clobbers the base class method,
   // we must redeclare this method here in order to forward comparisons with
-  // non-FramedVector types to the base class method.
-  template <typename... Args>
-  bool isApprox(Args &&...args) const {
-    return Vector::isApprox(std::forward<Args>(args)...);
+  // non-FramedVector types to the base class method. Note that this takes a
+  // const reference to the Eigen base so that it's never a better match than
+  // the overload above for FramedVectors, including non-const ones.
+  template <typename Derived, typename... Args>
+  bool isApprox(const Eigen::DenseBase<Derived> &other, Args &&...args) const {
+    return Vector::isApprox(other, std::forward<Args>(args)...);
   }
 
   void set_frame(const Frame<dims> &frame) { frame_ = frame; }
-- 
2.43.0


From eaf9aec75066906932e6ca2d9106d76c377174bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:34 +0000
Subject: [PATCH 07/15] fix: refuse framed control points on an unframed
 distance curve

---
 resim/curves/d_curve.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resim/curves/d_curve.cc b/resim/curves/d_curve.cc
index faa6036..30485af 100644
--- a/resim/curves/d_curve.cc
+++ b/resim/curves/d_curve.cc
@@ -32,7 +32,7 @@ DCurve<Group>::DCurve(std::initializer_list<Group> points) {
 
 template <typename Group>
 void DCurve<Group>::append(Group ref_from_control) {
-  if (!control_pts_.empty() and this->is_framed()) {
+  if (!control_pts_.empty()) {
     REASSERT(
         ref_from_control.verify_frames(
             this->reference_frame(),
-- 
2.43.0


From 2251549b2198c88765ceead2235d41b9b6a37eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:54 +0000
Subject: [PATCH 08/15] fix: distance curves starting with a zero length
 segment return valid points

---
 resim/curves/d_curve.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resim/curves/d_curve.cc b/resim/curves/d_curve.cc
index 30485af..0dad082 100644
--- a/resim/curves/d_curve.cc
+++ b/resim/curves/d_curve.cc
@@ -132,8 +132,12 @@ typename DCurve<Group>::PointAtData DCurve<Group>::point_at_impl(
       });
   REASSERT(s != segments_.end(), "Did not find valid segment.");
 
-  const double fraction = (arc_length - s->orig_arc_length) /
-                          (s->dest_arc_length - s->orig_arc_length);
+  // Segments may have zero length (e.g. repeated control points), in which case
+  // we return the segment's origin.
+  const double segment_length = s->dest_arc_length - s->orig_arc_length;
+  const double fraction =
+      segment_length > ZERO ? (arc_length - s->orig_arc_length) / segment_length
+                            : ZERO;
   return {.fraction = fraction, .s = s};
 }
 
-- 
2.43.0


From c0273602ed91938f7ea2cf754a4f9d5b2ae0302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:50 +0000
Subject: [PATCH 09/15] fix: refuse time curve queries at NaN

---
 resim/curves/t_curve.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resim/curves/t_curve.cc b/resim/curves/t_curve.cc
index 4e5a719..ff03726 100644
--- a/resim/curves/t_curve.cc
+++ b/resim/curves/t_curve.cc
@@ -139,9 +139,10 @@ typename TCurve<Group>::PointAtData TCurve<Group>::point_at_impl(
   REASSERT(!segments_.empty(), EMPTY_ERR);
   constexpr auto TIME_RANGE_ERR =
       "Query time must be within the range of times in the control points.";
-  const bool time_lo = time < control_pts_.front().time;
-  const bool time_hi = time > control_pts_.back().time;
-  REASSERT(!time_lo && !time_hi, TIME_RANGE_ERR);
+  // Note that these comparisons also exclude NaNs.
+  const bool after_start = time >= control_pts_.front().time;
+  const bool before_end = time <= control_pts_.back().time;
+  REASSERT(after_start && before_end, TIME_RANGE_ERR);
   const auto s = std::lower_bound(
       segments_.begin(),
       segments_.end(),
-- 
2.43.0


From 9da878ef3d6040be5568dd2712fa4d5797928838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:15 +0000
Subject: [PATCH 10/15] fix: trajectory end time exact to the nanosecond and
 refused when empty

---
 resim/actor/state/trajectory.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/resim/actor/state/trajectory.cc b/resim/actor/state/trajectory.cc
index 1375305..bc3944b 100644
--- a/resim/actor/state/trajectory.cc
+++ b/resim/actor/state/trajectory.cc
@@ -73,7 +73,20 @@ time::Timestamp Trajectory::end_time() const {
 }
 
 time::Duration Trajectory::time_duration() const {
-  return time::as_duration(curve_.control_pts().back().time);
+  constexpr auto EMPTY_ERR =
+      "Cannot query the duration of a trajectory with no control points";
+  REASSERT(!curve_.control_pts().empty(), EMPTY_ERR);
+  const double time = curve_.control_pts().back().time;
+  // Conversion from seconds can be off by one nanosecond due to truncation and
+  // rounding, so make sure we return the last duration within the curve.
+  constexpr time::Duration ONE_NS{1};
+  time::Duration duration = time::as_duration(time);
+  if (time::as_seconds(duration + ONE_NS) <= time) {
+    duration += ONE_NS;
+  } else if (time::as_seconds(duration) > time) {
+    duration -= ONE_NS;
+  }
+  return duration;
 }
 
 const Frame &Trajectory::reference_frame() const {
-- 
2.43.0


From 308497d5e8c4717ab59d967c882aa391aa889f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:08 +0000
Subject: [PATCH 11/15] fix: RETURN_OR_ASSIGN keeps temporary status values
 alive until their value is read

---
 resim/utils/status_value.hh | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/resim/utils/status_value.hh b/resim/utils/status_value.hh
index 3d73fc6..4ea7a41 100644
--- a/resim/utils/status_value.hh
+++ b/resim/utils/status_value.hh
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include <tuple>
 #include <type_traits>
 #include <utility>
 
@@ -150,18 +151,19 @@ constexpr const Status &StatusValue<T>::status() const {
 // ok. Otherwise, assign the value as the value of this expression. We don't
 // really have a choice but to use the GNU statement expression extension here
 // unless we pass the assignment target in too. We use the lambda because
-// otherwise the statement expression doesn't preserve references.
+// otherwise the statement expression doesn't preserve references. The lambda
+// owns the StatusValue if and only if the given expression is a temporary, since
+// such temporaries don't otherwise live long enough for us to get their value.
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#define RETURN_OR_ASSIGN(status_value)                        \
-  ({                                                          \
-    auto &&evalutated_status_value =                          \
-        std::forward<decltype(status_value)>(status_value);   \
-    RETURN_IF_NOT_OK(evalutated_status_value.status());       \
-    [&]() -> decltype(auto) {                                 \
-      return std::forward<decltype(evalutated_status_value)>( \
-                 evalutated_status_value)                     \
-          .value();                                           \
-    };                                                        \
+#define RETURN_OR_ASSIGN(status_value)                                     \
+  ({                                                                       \
+    using EvaluatedStatusValue = decltype((status_value));                 \
+    std::tuple<EvaluatedStatusValue> evaluated_status_value{status_value}; \
+    RETURN_IF_NOT_OK(std::get<0>(evaluated_status_value).status());        \
+    [evaluated_status_value =                                              \
+         std::move(evaluated_status_value)]() mutable -> decltype(auto) {  \
+      return std::get<0>(std::move(evaluated_status_value)).value();       \
+    };                                                                     \
   })()
 
 }  // namespace resim
-- 
2.43.0


From ab223d0ede52af411b938047de72dc0deac2deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:08 +0000
Subject: [PATCH 12/15] fix: refuse UUID strings with embedded null characters

---
 resim/utils/uuid.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resim/utils/uuid.cc b/resim/utils/uuid.cc
index fd9d817..3ca024a 100644
--- a/resim/utils/uuid.cc
+++ b/resim/utils/uuid.cc
@@ -21,6 +21,8 @@ UUID::UUID() : id_{NULL_ID} {}
 UUID::UUID(std::array<unsigned char, ARRAY_SIZE> id) : id_(id) {}
 
 UUID::UUID(const std::string &str) : id_{} {
+  // Strings with embedded null characters are longer than what uuid_parse sees.
+  REASSERT(str.find('\0') == std::string::npos, "Invalid UUID string!");
   constexpr int SUCCESS = 0;
   const int result = uuid_parse(str.c_str(), id_.data());
   REASSERT(SUCCESS == result, "Invalid UUID string!");
-- 
2.43.0


From fb847ea81b6fc64e630cf1f21cc8ab8204c2282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:17 +0000
Subject: [PATCH 13/15] fix: CHECK_STATUS_OK evaluates its argument exactly
 once

---
 resim/utils/status.hh | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/resim/utils/status.hh b/resim/utils/status.hh
index c46ff2f..d02e7ff 100644
--- a/resim/utils/status.hh
+++ b/resim/utils/status.hh
@@ -77,16 +77,23 @@ constexpr Status OKAY_STATUS{};
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
 #define MAKE_STATUS(msg) (Status::make_at_line(__FILE__, __LINE__, msg))
 
-// Define a macro to check that a given status is okay.
+// Define a macro to check that a given status is okay. The argument is
+// evaluated exactly once.
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#define CHECK_STATUS_OK(status)       \
-  ({                                  \
-    const auto err_msg = fmt::format( \
-        fg(fmt::color::red),          \
-        "{{{0}.what() == {1}}}",      \
-        #status,                      \
-        (status).what());             \
-    REASSERT((status).ok(), err_msg); \
+#define CHECK_STATUS_OK(status)                      \
+  ({                                                 \
+    const resim::Status evaluated_status = (status); \
+    const auto err_msg = fmt::format(                \
+        fg(fmt::color::red),                         \
+        "{{{0}.what() == {1}}}",                     \
+        #status,                                     \
+        evaluated_status.what());                    \
+    resim::detail::assert_impl(                      \
+        evaluated_status.ok(),                       \
+        "(" #status ").ok()",                        \
+        __FILE__,                                    \
+        __LINE__,                                    \
+        err_msg);                                    \
   })
 
 // Return from the enclosing function if the given status result is not ok.
-- 
2.43.0


From 48c127c54b9dd2e9698f01b5c35780494dca6a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:23 +0000
Subject: [PATCH 14/15] fix: accept singular positive semi-definite covariances
 whose elements are alike

---
 resim/math/multivariate_gaussian.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/resim/math/multivariate_gaussian.cc b/resim/math/multivariate_gaussian.cc
index 7e33f75..06367a9 100644
--- a/resim/math/multivariate_gaussian.cc
+++ b/resim/math/multivariate_gaussian.cc
@@ -59,11 +59,12 @@ typename Gaussian::SamplesMat Gaussian::iid_samples(unsigned int n) {
 void Gaussian::sanitize_eigenvalues() {
   constexpr double TOL_BASE = 1e-15;
   // We need to scale our tolerance according to the scale of the covariance
-  // matrix. Broadly, covariance matrices with wider ranging values deserve
-  // wider tolerance. There may be a more principled way to do this than the
-  // method below, however this performs sufficiently well on our test cases.
-  const double tol =
-      std::max((cov_.maxCoeff() - cov_.minCoeff()) * TOL_BASE, TOL_BASE);
+  // matrix since the error of the solver is proportional to its norm. The norm
+  // is at most the largest magnitude times the dimensionality, which is non-zero
+  // for singular matrices with equal elements as well.
+  const double tol = std::max(
+      cov_.cwiseAbs().maxCoeff() * static_cast<double>(dims_) * TOL_BASE,
+      TOL_BASE);
   constexpr auto EIGENVALS_ERR =
       "Symmetric PSD matrices have positive eigenvalues";
   REASSERT(eigenvalues_.minCoeff() > -tol, EIGENVALS_ERR);
-- 
2.43.0


From 312ef0c5506ccc7052750c7322523fe39ace3a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:35 +0000
Subject: [PATCH 15/15] fix: set_frames with the group's own frames left both
 frames equal

---
 resim/transforms/liegroup.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resim/transforms/liegroup.hh b/resim/transforms/liegroup.hh
index dc3fce5..2293f34 100644
--- a/resim/transforms/liegroup.hh
+++ b/resim/transforms/liegroup.hh
@@ -53,8 +53,8 @@ class LieGroup {
   // For representing mappings between tangent spaces
   using TangentMapping = Eigen::Matrix<double, DOF, DOF>;
 
-  // Set frames
-  void set_frames(const Frame<DIMS> &into, const Frame<DIMS> &from) {
+  // Set frames. They may be this group's own frames, hence taken by value.
+  void set_frames(Frame<DIMS> into, Frame<DIMS> from) {
     constexpr auto NULL_FRAME_ERR =
         "Cannot set frames as null {0}. If you want to make this group "
         "unframed "
-- 
2.43.0

